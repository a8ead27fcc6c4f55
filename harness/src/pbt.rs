//! Choice-sequence property-based testing core.
//!
//! Every random decision of a case (inputs, operations, schedules, faults) is one entry of a
//! choice sequence drawn from a generator seeded by VERIF_SEED. A failing case is its choice
//! sequence: it is shrunk by deleting and lowering choices and written out as the replay file.
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    panic::{AssertUnwindSafe, catch_unwind},
    sync::{
        Arc, Mutex, Once,
        atomic::{AtomicBool, AtomicUsize, Ordering},
    },
    time::{Duration, Instant},
};

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = a ^ b.rotate_left(32).wrapping_mul(0xD6E8FEB86659FD93);
    splitmix(&mut s);
    splitmix(&mut s)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

static DUMP: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();

/// The source of all choices of one case.
pub struct Src {
    prefix: Vec<u64>,
    pos: usize,
    rec: Vec<u64>,
    rng: Option<u64>,
    labels: BTreeMap<&'static str, u64>,
    trace: Vec<String>,
    pub tracing: bool,
    nontrivial: bool,
    sig: u64,
}

impl Src {
    fn random(seed: u64) -> Src {
        Src {
            prefix: Vec::new(),
            pos: 0,
            rec: Vec::new(),
            rng: Some(seed),
            labels: BTreeMap::new(),
            trace: Vec::new(),
            tracing: false,
            nontrivial: false,
            sig: 0,
        }
    }

    fn replay(choices: &[u64]) -> Src {
        let mut s = Src::random(0);
        s.prefix = choices.to_vec();
        s.rng = None;
        s
    }

    /// A choice in `0..n` (n > 0). 0 is the simplest one.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = if self.pos < self.prefix.len() {
            let p = self.prefix[self.pos];
            if p < n { p } else { n - 1 }
        } else {
            match self.rng.as_mut() {
                Some(r) => splitmix(r) % n,
                None => 0,
            }
        };
        self.pos += 1;
        self.rec.push(v);
        self.dump(v);
        v
    }

    /// In single-case mode every choice is written out as it is drawn, so that a case which
    /// kills the process still leaves its choice sequence behind.
    fn dump(&mut self, v: u64) {
        if let Some(f) = DUMP.get() {
            use std::io::Write as _;
            let _ = writeln!(&mut &*f, "{}", v);
        }
    }

    pub fn bits(&mut self) -> u64 {
        let v = if self.pos < self.prefix.len() {
            self.prefix[self.pos]
        } else {
            match self.rng.as_mut() {
                Some(r) => splitmix(r),
                None => 0,
            }
        };
        self.pos += 1;
        self.rec.push(v);
        self.dump(v);
        v
    }

    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// Inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }

    pub fn i64(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }

    /// True with probability num/den. The simplest outcome is `false`.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // value 0 -> false; top `num` values -> true
        let v = self.below(den);
        v >= den - num
    }

    pub fn flag(&mut self) -> bool {
        self.below(2) == 1
    }

    /// Pick an index by weight; index 0 is the simplest.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= *x;
        }
        unreachable!()
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }

    /// A size that is mostly small, sometimes large (roughly log-uniform in `0..=hi`).
    pub fn size(&mut self, hi: usize) -> usize {
        if hi == 0 {
            return 0;
        }
        let maxbits = 64 - (hi as u64).leading_zeros() as u64;
        let b = self.below(maxbits + 1);
        let cap = if b >= 63 { hi as u64 } else { ((1u64 << b) - 1).min(hi as u64) };
        self.below(cap + 1) as usize
    }

    /// Deterministic filler bytes from one choice (content is one choice, so shrinking is cheap).
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut s = self.below(1 << 16);
        let mut v = Vec::with_capacity(n);
        if s == 0 {
            v.resize(n, 0);
            return v;
        }
        while v.len() < n {
            let x = splitmix(&mut s).to_le_bytes();
            let k = (n - v.len()).min(8);
            v.extend_from_slice(&x[..k]);
        }
        v
    }

    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }

    pub fn labelled(&self, l: &'static str) -> bool {
        self.labels.contains_key(l)
    }

    /// Marks the case as non-trivial by the property's stated rule.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }

    pub fn nontrivial_if(&mut self, c: bool) {
        if c {
            self.nontrivial = true;
        }
    }

    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.tracing {
            self.trace.push(f());
        }
    }

    /// Feeds the distinctness hash of the case.
    pub fn mark(&mut self, v: u64) {
        self.sig = mix(self.sig, v);
    }
}

#[derive(Debug, Clone)]
pub struct Failure {
    /// stable signature used to match known findings
    pub sig: String,
    pub msg: String,
    /// false: the machinery could not decide (never reported as a violation)
    pub violation: bool,
}

impl Failure {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Failure {
        Failure { sig: sig.into(), msg: msg.into(), violation: true }
    }
}

pub type CaseResult = Result<(), Failure>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Failure> {
    Err(Failure {
        sig: sig.into(),
        msg: msg.into(),
        violation: true,
    })
}

#[allow(dead_code)]
pub fn undecided<T>(msg: impl Into<String>) -> Result<T, Failure> {
    Err(Failure {
        sig: "undecided".into(),
        msg: msg.into(),
        violation: false,
    })
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return $crate::pbt::fail($sig, format!($($arg)*));
        }
    };
}

#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $sig:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return $crate::pbt::fail($sig, format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b));
        }
    }};
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
static HOOK: Once = Once::new();
pub static VERBOSE: AtomicBool = AtomicBool::new(false);

pub fn install_hook() {
    HOOK.call_once(|| {
        std::panic::set_hook(Box::new(|info| {
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "<non-string panic>".to_string()
            };
            if VERBOSE.load(Ordering::Relaxed) || std::env::var_os("KV_PANICS").is_some() {
                eprintln!("[panic] {} at {}", msg, loc);
            }
            LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
        }));
    });
}

/// Runs `f`, turning a panic into `Err((message, location))`.
pub fn no_panic<R>(f: impl FnOnce() -> R) -> Result<R, (String, String)> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_default()),
    }
}

pub struct Prop {
    pub id: &'static str,
    /// what makes a case non-trivial
    pub rule: &'static str,
    pub run: fn(&mut Src) -> CaseResult,
    pub quick: usize,
    pub thorough: usize,
    /// parallel workers
    pub workers: usize,
    /// shrink budget in re-executions
    pub shrink: usize,
    /// how many extra executions must fail as well before a failure is reported (0 = deterministic)
    pub confirm: usize,
    pub assumptions: &'static [&'static str],
    /// cases per child process (0: all), where the code under test does not give back its memory
    pub segment: usize,
}

impl Prop {
    pub const fn new(
        id: &'static str,
        rule: &'static str,
        quick: usize,
        thorough: usize,
        run: fn(&mut Src) -> CaseResult,
    ) -> Prop {
        Prop {
            id,
            rule,
            run,
            quick,
            thorough,
            workers: 8,
            shrink: 1500,
            confirm: 0,
            assumptions: &[],
            segment: 0,
        }
    }
    pub const fn segment(mut self, n: usize) -> Prop {
        self.segment = n;
        self
    }
    pub fn cases(&self, tier: &str) -> usize {
        match std::env::var("KV_CASES") {
            Ok(x) => x.parse().unwrap(),
            Err(_) if tier == "thorough" => self.thorough,
            Err(_) => self.quick,
        }
    }
    pub const fn workers(mut self, n: usize) -> Prop {
        self.workers = n;
        self
    }
    pub const fn shrink(mut self, n: usize) -> Prop {
        self.shrink = n;
        self
    }
    pub const fn confirm(mut self, n: usize) -> Prop {
        self.confirm = n;
        self
    }
    pub const fn assume(mut self, a: &'static [&'static str]) -> Prop {
        self.assumptions = a;
        self
    }
}

fn run_case(prop: &Prop, src: &mut Src) -> CaseResult {
    match catch_unwind(AssertUnwindSafe(|| (prop.run)(src))) {
        Ok(r) => r,
        Err(_) => {
            let (m, l) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_default();
            fail(format!("panic@{}", strip_line(&l)), format!("panic: {} at {}", m, l))
        }
    }
}

fn strip_line(l: &str) -> String {
    l.rsplit_once(':').map(|x| x.0.to_string()).unwrap_or_else(|| l.to_string())
}

fn shrink_case(prop: &Prop, start: Vec<u64>, fail0: Failure) -> (Vec<u64>, Failure) {
    let mut best = start;
    let mut bf = fail0;
    let mut budget = prop.shrink;
    let deadline = Instant::now() + Duration::from_secs(60);
    let sig = bf.sig.clone();
    let attempt = |cand: &[u64], budget: &mut usize| -> Option<(Vec<u64>, Failure)> {
        if *budget == 0 || Instant::now() > deadline {
            *budget = 0;
            return None;
        }
        *budget -= 1;
        let mut s = Src::replay(cand);
        if let Some(e) = CASE_STARTED.lock().unwrap().get_mut(0) {
            *e = Some((Instant::now(), 0));
        }
        let r = run_case(prop, &mut s);
        if let Some(e) = CASE_STARTED.lock().unwrap().get_mut(0) {
            *e = None;
        }
        match r {
            Err(f) if f.violation && f.sig == sig => {
                // keep what was actually consumed
                let n = s.pos.min(cand.len());
                Some((cand[..n].to_vec(), f))
            }
            _ => None,
        }
    };
    loop {
        let before = best.clone();
        // delete blocks
        let mut block = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && budget > 0 {
                let end = (i + block).min(best.len());
                let mut cand = best[..i].to_vec();
                cand.extend_from_slice(&best[end..]);
                if let Some((c, f)) = attempt(&cand, &mut budget) {
                    best = c;
                    bf = f;
                } else {
                    i += block;
                }
            }
            if block == 1 || budget == 0 {
                break;
            }
            block /= 2;
        }
        // lower values
        let mut i = 0;
        while i < best.len() && budget > 0 {
            if best[i] > 0 {
                let mut lo = 0u64;
                let mut hi = best[i];
                let mut cand = best.clone();
                cand[i] = 0;
                if let Some((c, f)) = attempt(&cand, &mut budget) {
                    best = c;
                    bf = f;
                } else {
                    while hi - lo > 1 && budget > 0 {
                        let mid = lo + (hi - lo) / 2;
                        let mut cand = best.clone();
                        if i >= cand.len() {
                            break;
                        }
                        cand[i] = mid;
                        if let Some((c, f)) = attempt(&cand, &mut budget) {
                            best = c;
                            bf = f;
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || budget == 0 {
            break;
        }
    }
    (best, bf)
}

pub struct KnownFinding {
    pub property: String,
    pub sig: String,
    pub what: String,
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Acc {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    failures: Vec<(u64, Vec<u64>, Failure)>,
    undecided: Vec<String>,
    samples: Vec<(u64, Vec<u64>)>,
}

impl Acc {
    /// What the processes before this one did (one record per line).
    fn merge(&mut self, file: &str) -> f64 {
        let txt = std::fs::read_to_string(file).expect("acc");
        let nums = |s: &str| -> Vec<u64> { s.split_whitespace().map(|x| x.parse().expect("acc")).collect() };
        let mut wall = 0.0;
        let mut samples = vec![];
        for l in txt.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "wall" => wall = v.parse().expect("acc"),
                "evaluations" => self.evaluations += v.parse::<u64>().expect("acc"),
                "nontrivial" => self.nontrivial.extend(nums(v)),
                "label" => {
                    let (n, l) = v.split_once(' ').unwrap();
                    *self.labels.entry(Box::leak(l.to_string().into_boxed_str())).or_insert(0) += n.parse::<u64>().expect("acc");
                }
                "undecided" => self.undecided.push(v.to_string()),
                "sample" => {
                    let mut c = nums(v);
                    let i = c.remove(0);
                    samples.push((i, c));
                }
                "failure" => {
                    let mut p = v.splitn(3, '\t');
                    let (c, sig, msg) = (p.next().unwrap(), p.next().unwrap().to_string(), p.next().unwrap().to_string());
                    let mut c = nums(c);
                    let i = c.remove(0);
                    if !self.failures.iter().any(|f| f.2.sig == sig) {
                        self.failures.push((i, c, Failure { sig, msg, violation: true }));
                    }
                }
                _ => {}
            }
        }
        samples.append(&mut self.samples);
        self.samples = samples;
        wall
    }

    fn save(&self, file: &str, wall: f64) {
        let list = |v: &mut dyn Iterator<Item = u64>| v.map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
        let line = |s: &str| s.replace(['\n', '\t'], " ");
        let mut o = format!("wall {}\nevaluations {}\nnontrivial {}\n", wall, self.evaluations, list(&mut self.nontrivial.iter().copied()));
        for (k, v) in &self.labels {
            o += &format!("label {} {}\n", v, k);
        }
        for u in &self.undecided {
            o += &format!("undecided {}\n", line(u));
        }
        for (i, c) in &self.samples {
            o += &format!("sample {} {}\n", i, list(&mut c.iter().copied()));
        }
        for (i, c, f) in &self.failures {
            o += &format!("failure {} {}\t{}\t{}\n", i, list(&mut c.iter().copied()), line(&f.sig), line(&f.msg));
        }
        std::fs::write(file, o).expect("acc");
    }
}

static PROGRESS: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();

fn progress_path() -> Option<String> {
    std::env::var("KV_PROGRESS").ok()
}

fn progress(w: usize, i: Option<u64>) {
    use std::os::unix::fs::FileExt;
    if let Some(f) = PROGRESS.get() {
        let _ = f.write_all_at(&i.map(|x| x + 1).unwrap_or(0).to_le_bytes(), (w * 8) as u64);
    }
}

static CASE_STARTED: Mutex<Vec<Option<(Instant, u64)>>> = Mutex::new(Vec::new());

fn watchdog(limit: Duration) {
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let g = CASE_STARTED.lock().unwrap();
            for e in g.iter().flatten() {
                if e.0.elapsed() > limit {
                    println!("case {} did not finish within {:?}", e.1, limit);
                    std::process::exit(4);
                }
            }
        }
    });
}

const HANG_SECS: u64 = 100;

fn write_replay(verif: &str, id: &str, seed: u64, i: u64, f: &Failure, choices: &[u64], trace: &[String]) -> String {
    let dir = format!("{}/replays", verif);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}-{}.json", dir, id, seed, i);
    let mut out = String::new();
    let _ = write!(
        out,
        "{{\n \"property\": {},\n \"case\": {},\n \"seed\": {},\n \"signature\": {},\n \"message\": {},\n \"choices\": {:?},\n \"trace\": [\n",
        json_str(id), i, seed, json_str(&f.sig), json_str(&f.msg), choices
    );
    for (j, t) in trace.iter().enumerate() {
        let _ = writeln!(out, "  {}{}", json_str(t), if j + 1 < trace.len() { "," } else { "" });
    }
    out.push_str(" ]\n}\n");
    let _ = std::fs::write(&path, out);
    path
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    prop: &Prop,
    tier: &str,
    seed: u64,
    verif: &str,
    acc: &Acc,
    samples: &[String],
    violations: &[(String, String, String)],
    wall: f64,
) {
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"labels\": {{",
        json_str(prop.id), json_str(tier), seed, acc.evaluations, acc.nontrivial.len(), json_str(prop.rule)
    );
    for (j, (k, v)) in acc.labels.iter().enumerate() {
        let _ = write!(o, "{}{}: {}", if j > 0 { ", " } else { "" }, json_str(k), v);
    }
    o.push_str("},\n  \"samples\": [");
    for (j, s) in samples.iter().enumerate() {
        let _ = write!(o, "{}\n   {}", if j > 0 { "," } else { "" }, json_str(s));
    }
    let _ = write!(o, "\n  ],\n  \"inconclusive\": {}\n }},\n \"assumptions\": [", acc.undecided.len());
    for (j, s) in prop.assumptions.iter().enumerate() {
        let _ = write!(o, "{}{}", if j > 0 { ", " } else { "" }, json_str(s));
    }
    let _ = write!(
        o,
        "],\n \"wall_s\": {:.2},\n \"violations\": {},\n \"violation_details\": [",
        wall,
        violations.len()
    );
    for (j, (sig, msg, path)) in violations.iter().enumerate() {
        let _ = write!(
            o,
            "{}{{\"signature\": {}, \"message\": {}, \"replay\": {}}}",
            if j > 0 { ", " } else { "" },
            json_str(sig), json_str(msg), json_str(path)
        );
    }
    o.push_str("]\n}\n");
    let dir = format!("{}/evidence", verif);
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{}/{}.json", dir, prop.id), o).expect("evidence");
}

fn limit_memory() {
    // an unbounded allocation must end as a crash of this process, not as an out-of-memory kill
    unsafe {
        let l = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
    }
}

/// One case, alone in this process, its choices written out as they are drawn.
pub fn single_case(prop: &'static Prop, seed: u64, i: u64, dump: &str) -> i32 {
    install_hook();
    limit_memory();
    let _ = DUMP.set(std::fs::File::create(dump).expect("dump file"));
    CASE_STARTED.lock().unwrap().push(Some((Instant::now(), i)));
    watchdog(Duration::from_secs(HANG_SECS));
    let mut src = Src::random(mix(mix(seed, hash_str(prop.id)), i));
    let r = run_case(prop, &mut src);
    if r.is_ok() { 0 } else { 1 }
}

/// Runs the check in a child process, so that a crash or hang of the code under test is observed
/// and reported instead of ending the check without an answer.
pub fn supervise(prop: &'static Prop, tier: &str, seed: u64, verif: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    use std::process::Command;
    let t0 = Instant::now();
    let exe = std::env::current_exe().expect("exe");
    let prog = std::env::temp_dir().join(format!("kv-{}-{}.prog", prop.id, std::process::id()));
    let prog = prog.to_str().unwrap().to_string();
    std::fs::write(&prog, vec![0u8; 8 * 64]).expect("progress file");
    let clean = |code: i32| -> i32 {
        for suffix in ["", ".fail", ".dump", ".acc"] {
            let _ = std::fs::remove_file(format!("{}{}", prog, suffix));
        }
        code
    };
    let n = prop.cases(tier);
    let seg = if prop.segment == 0 { n } else { prop.segment }.max(1);
    let mut from = 0;
    let status = loop {
    let to = (from + seg).min(n);
    let status = Command::new(&exe)
        .args(["child", prop.id, tier])
        .env("VERIF_SEED", seed.to_string())
        .env("KV_FROM", from.to_string())
        .env("KV_TO", to.to_string())
        .env("KV_ACC", format!("{}.acc", prog))
        .env("KV_PROGRESS", &prog)
        .stderr(if std::env::var("KV_STDERR").is_ok() { std::process::Stdio::inherit() } else { std::process::Stdio::null() })
        .status()
        .expect("child");
        from = to;
        if status.code() != Some(0) || from >= n {
            break status;
        }
    };
    if let Some(c) = status.code()
        && c != 4
        && c != 134
    {
        return clean(c);
    }
    let how = match (status.signal(), status.code()) {
        (Some(s), _) => format!("process killed by signal {}", s),
        (None, Some(4)) => format!("a case did not finish within {} s", HANG_SECS),
        _ => "process aborted".to_string(),
    };
    if status.signal() == Some(libc::SIGKILL) || status.signal() == Some(libc::SIGTERM) {
        println!("ERROR: {} from outside; inconclusive", how);
        return clean(3);
    }
    let report = |path: String, sig: String, msg: String| {
        println!("failure: {}", msg);
        println!("signature: {}", sig);
        println!("VIOLATION property={} replay={}", prop.id, path);
        let acc = Acc { evaluations: 1, ..Acc::default() };
        let v = vec![(sig, msg, path)];
        write_evidence(prop, tier, seed, verif, &acc, &[], &v, t0.elapsed().as_secs_f64());
    };
    if let Ok(t) = std::fs::read_to_string(format!("{}.fail", prog)) {
        let mut l = t.splitn(3, '\n');
        let (p, s, m) = (l.next().unwrap_or(""), l.next().unwrap_or(""), l.next().unwrap_or(""));
        report(p.to_string(), s.to_string(), m.to_string());
        return clean(1);
    }
    let cases: Vec<u64> = std::fs::read(&prog)
        .unwrap_or_default()
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .filter(|x| *x > 0)
        .map(|x| x - 1)
        .collect();
    println!("{}; cases in progress {:?}", how, cases);
    let sig = if status.code() == Some(4) { "hang" } else { "crash" };
    // find the case that does it alone
    let mut children: Vec<_> = cases
        .iter()
        .map(|i| {
            let dump = format!("{}.dump{}", prog, i);
            let c = Command::new(&exe)
                .args(["case", prop.id, &seed.to_string(), &i.to_string(), &dump])
                .spawn()
                .expect("child");
            (*i, dump, c)
        })
        .collect();
    let mut found: Option<(u64, Vec<u64>, bool)> = None;
    for (i, dump, c) in children.iter_mut() {
        let st = c.wait();
        let bad = st.map(|s| s.signal().is_some() || s.code() == Some(4)).unwrap_or(false);
        let ch: Vec<u64> = std::fs::read_to_string(&dump)
            .unwrap_or_default()
            .lines()
            .filter_map(|x| x.parse().ok())
            .collect();
        let _ = std::fs::remove_file(&dump);
        if found.is_none() || (bad && !found.as_ref().unwrap().2) {
            found = Some((*i, ch, bad));
        }
    }
    let Some((i, ch, alone)) = found else {
        println!("ERROR: {} outside of any case; inconclusive", how);
        return clean(3);
    };
    let f = Failure {
        sig: sig.to_string(),
        msg: format!("{} (case {}{})", how, i, if alone { ", reproduced alone" } else { ", not reproduced alone" }),
        violation: true,
    };
    let path = write_replay(verif, prop.id, seed, i, &f, &ch, &[]);
    report(path, f.sig, f.msg);
    clean(1)
}

pub fn run_prop(prop: &'static Prop, tier: &str, seed: u64, known: &[KnownFinding], verif: &str) -> i32 {
    install_hook();
    limit_memory();
    let t0 = Instant::now();
    let all = prop.cases(tier);
    let env = |k: &str, d: usize| std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d);
    let (from, n) = (env("KV_FROM", 0), env("KV_TO", all));
    let acc_file = std::env::var("KV_ACC").ok();
    let workers = std::env::var("KV_WORKERS")
        .ok()
        .map(|x| x.parse().unwrap())
        .unwrap_or(prop.workers)
        .max(1);
    let base = mix(seed, hash_str(prop.id));
    let next = Arc::new(AtomicUsize::new(from));
    let stop = Arc::new(AtomicBool::new(false));
    let acc = Arc::new(Mutex::new(Acc::default()));
    {
        let mut g = CASE_STARTED.lock().unwrap();
        g.clear();
        g.resize_with(workers, || None);
    }
    if let Some(p) = progress_path() {
        let _ = PROGRESS.set(std::fs::OpenOptions::new().write(true).open(p).expect("progress file"));
    }
    watchdog(Duration::from_secs(HANG_SECS));
    let known_sigs: Arc<HashSet<String>> = Arc::new(
        known
            .iter()
            .filter(|k| k.property == prop.id)
            .map(|k| k.sig.clone())
            .collect(),
    );
    let mut handles = Vec::new();
    for w in 0..workers {
        let (next, stop, acc, known_sigs) = (next.clone(), stop.clone(), acc.clone(), known_sigs.clone());
        handles.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        let mut src = Src::random(mix(base, i as u64));
                        CASE_STARTED.lock().unwrap()[w] = Some((Instant::now(), i as u64));
                        progress(w, Some(i as u64));
                        let mut r = run_case(prop, &mut src);
                        // non-deterministic properties: only believe a failure that repeats
                        if let Err(f) = &r
                            && f.violation
                            && prop.confirm > 0
                        {
                            let mut again = 0;
                            for _ in 0..prop.confirm {
                                CASE_STARTED.lock().unwrap()[w] = Some((Instant::now(), i as u64));
                                let mut s2 = Src::replay(&src.rec);
                                if let Err(f2) = run_case(prop, &mut s2)
                                    && f2.violation
                                {
                                    again += 1;
                                }
                            }
                            if again < prop.confirm {
                                let f = r.unwrap_err();
                                r = Err(Failure {
                                    violation: false,
                                    sig: f.sig,
                                    msg: format!("not repeated ({}/{}): {}", again, prop.confirm, f.msg),
                                });
                            }
                        }
                        CASE_STARTED.lock().unwrap()[w] = None;
                        progress(w, None);
                        let mut a = acc.lock().unwrap();
                        a.evaluations += 1;
                        for (k, v) in &src.labels {
                            *a.labels.entry(k).or_insert(0) += v;
                        }
                        if src.nontrivial {
                            let mut h = src.sig;
                            for c in &src.rec {
                                h = mix(h, *c);
                            }
                            if a.nontrivial.insert(h) && a.samples.len() < 4 {
                                a.samples.push((i as u64, src.rec.clone()));
                            }
                        }
                        match r {
                            Ok(()) => {}
                            Err(f) if f.violation => {
                                let is_known = known_sigs.contains(&f.sig);
                                let seen = a.failures.iter().any(|x| x.2.sig == f.sig);
                                if !seen {
                                    a.failures.push((i as u64, src.rec.clone(), f));
                                }
                                if !is_known {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                            Err(f) => {
                                a.undecided.push(f.msg);
                            }
                        }
                    }
                })
                .unwrap(),
        );
    }
    for h in handles {
        let _ = h.join();
    }
    let mut acc = std::mem::take(&mut *acc.lock().unwrap());
    let mut before = 0.0;
    if let Some(f) = acc_file.as_ref().filter(|_| from > 0) {
        before = acc.merge(f);
    }
    if let Some(f) = acc_file.as_ref().filter(|_| n < all && acc.failures.iter().all(|f| known_sigs.contains(&f.2.sig))) {
        acc.save(f, before + t0.elapsed().as_secs_f64());
        return 0;
    }
    let mut failures = std::mem::take(&mut acc.failures);
    failures.sort_by_key(|f| f.0);
    let mut exit = 0;
    let mut violations = Vec::new();
    for k in known.iter().filter(|k| k.property == prop.id) {
        if failures.iter().any(|f| f.2.sig == k.sig) {
            println!("KNOWN-FINDING: property={} {}", prop.id, k.what);
        }
    }
    let mut reported = false;
    for (i, choices, f) in failures {
        if known_sigs.contains(&f.sig) {
            continue;
        }
        if reported {
            println!("note: further failure sig={} msg={}", f.sig, f.msg);
            continue;
        }
        reported = true;
        if let Some(p) = progress_path() {
            // should shrinking kill the process, the parent still knows the failure
            let path = write_replay(verif, prop.id, seed, i, &f, &choices, &[]);
            let _ = std::fs::write(format!("{}.fail", p), format!("{}\n{}\n{}", path, f.sig, f.msg));
        }
        // failures on real threads do not repeat reliably, so there is nothing to shrink them by
        let (best, bf) = if prop.shrink > 0 && !f.sig.starts_with("mt-") {
            shrink_case(prop, choices, f)
        } else {
            (choices, f)
        };
        let mut s = Src::replay(&best);
        s.tracing = true;
        let _ = run_case(prop, &mut s);
        let path = write_replay(verif, prop.id, seed, i, &bf, &best, &s.trace);
        println!("failure: {}", bf.msg);
        println!("signature: {}", bf.sig);
        println!("VIOLATION property={} replay={}", prop.id, path);
        violations.push((bf.sig, bf.msg, path));
        exit = 1;
    }
    // samples: replay with tracing on for a readable rendering
    let mut samples = Vec::new();
    for (i, c) in acc.samples.iter().take(3) {
        let mut s = Src::replay(c);
        s.tracing = true;
        if exit == 0 {
            let _ = run_case(prop, &mut s);
        }
        let mut t = s.trace.join("; ");
        if t.len() > 700 {
            let mut k = 700;
            while !t.is_char_boundary(k) {
                k -= 1;
            }
            t.truncate(k);
            t.push('…');
        }
        samples.push(format!("case {} ({} choices): {}", i, c.len(), t));
    }
    let wall = before + t0.elapsed().as_secs_f64();
    write_evidence(prop, tier, seed, verif, &acc, &samples, &violations, wall);
    println!(
        "{}: {} cases, {} distinct non-trivial, {} inconclusive, {:.1}s; labels {:?}",
        prop.id, acc.evaluations, acc.nontrivial.len(), acc.undecided.len(), wall, acc.labels
    );
    if exit == 0 && !acc.undecided.is_empty() {
        println!("first inconclusive: {}", acc.undecided[0]);
        // A few inconclusive cases are tolerated; a check that mostly could not decide is an error.
        if acc.undecided.len() * 4 > acc.evaluations as usize {
            println!("ERROR: too many inconclusive cases");
            return 3;
        }
    }
    exit
}

pub fn replay(prop: &'static Prop, choices: &[u64]) -> i32 {
    install_hook();
    VERBOSE.store(true, Ordering::Relaxed);
    let mut s = Src::replay(choices);
    s.tracing = true;
    let mut r = run_case(prop, &mut s);
    // cases on real threads may need some attempts
    let mut k = 0;
    while r.is_ok() && k < 200 && s.labels.iter().any(|l| *l.0 == "stress") {
        k += 1;
        s = Src::replay(choices);
        s.tracing = true;
        r = run_case(prop, &mut s);
    }
    for t in &s.trace {
        println!("  {}", t);
    }
    match r {
        Ok(()) => {
            println!("replay of {}: holds", prop.id);
            0
        }
        Err(f) => {
            println!("replay of {}: FAILS sig={} {}", prop.id, f.sig, f.msg);
            1
        }
    }
}
