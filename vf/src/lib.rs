//! Small property-based testing engine.
//!
//! A case is a function of a stream of bounded draws (`Src`).  Random cases draw from a PRNG seeded by
//! (VERIF_SEED, property, facet, case index); shrinking edits the recorded draws; replaying feeds them back.
use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub enum Stop {
    Fail(String),
    Discard,
}
pub type R<T = ()> = Result<T, Stop>;

/// lines of the check itself: the code under test may print what it likes, its output goes nowhere
static OUT: std::sync::OnceLock<std::sync::Mutex<std::fs::File>> = std::sync::OnceLock::new();
fn say(m: String) {
    use std::io::Write;
    match OUT.get() {
        Some(f) => {
            let _ = writeln!(f.lock().unwrap_or_else(|e| e.into_inner()), "{m}");
        }
        None => println!("{m}"),
    }
}
macro_rules! out { ($($a:tt)*) => { say(format!($($a)*)) } }
fn hush() {
    use std::os::fd::FromRawFd;
    extern "C" {
        fn fcntl(fd: i32, cmd: i32, ...) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
    }
    let Ok(null) = std::fs::OpenOptions::new().write(true).open("/dev/null") else { return };
    use std::os::fd::AsRawFd;
    unsafe {
        // F_DUPFD_CLOEXEC: programs started by a case do not keep the reader of our output waiting
        let keep = fcntl(1, 1030, 3i32);
        if keep >= 0 && OUT.set(std::sync::Mutex::new(std::fs::File::from_raw_fd(keep))).is_ok() {
            dup2(null.as_raw_fd(), 1);
        }
    }
}
#[macro_export]
macro_rules! fail { ($($a:tt)*) => { return Err($crate::Stop::Fail(format!($($a)*))) } }
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::Stop::Fail(format!($($a)*))) } }
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            return Err($crate::Stop::Fail(format!("{}: observed {:?}, expected {:?}", format!($($m)*), a, b)));
        }
    }};
}
pub fn discard<T>() -> R<T> {
    Err(Stop::Discard)
}
/// turn an unexpected Err of the code under test into a failure
pub trait OkOr<T> {
    fn must(self, what: &str) -> R<T>;
}
impl<T, E: std::fmt::Debug> OkOr<T> for Result<T, E> {
    fn must(self, what: &str) -> R<T> {
        self.map_err(|e| Stop::Fail(format!("{what}: unexpected error {e:?}")))
    }
}
impl<T> OkOr<T> for Option<T> {
    fn must(self, what: &str) -> R<T> {
        self.ok_or_else(|| Stop::Fail(format!("{what}: unexpected None")))
    }
}

// ------------------------------------------------------------------ draws
pub struct Src {
    replay: Option<Vec<u64>>,
    pub draws: Vec<u64>,
    s: [u64; 2],
}
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Src {
    pub fn random(seed: u64) -> Src {
        let mut x = seed;
        Src { replay: None, draws: vec![], s: [splitmix(&mut x), splitmix(&mut x) | 1] }
    }
    pub fn replay(d: Vec<u64>) -> Src {
        Src { replay: Some(d), draws: vec![], s: [1, 2] }
    }
    fn raw(&mut self) -> u64 {
        // xoroshiro128+
        let s0 = self.s[0];
        let mut s1 = self.s[1];
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.s[0] = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.s[1] = s1.rotate_left(37);
        r
    }
    /// uniform in 0..bound, 0 is the simplest
    pub fn draw(&mut self, bound: u64) -> u64 {
        let v = match &self.replay {
            Some(r) => r.get(self.draws.len()).copied().unwrap_or(0),
            None => {
                let x = self.raw();
                if bound == 0 { x } else { ((x as u128 * bound as u128) >> 64) as u64 }
            }
        };
        let v = if bound == 0 { v } else { v.min(bound - 1) };
        self.draws.push(v);
        v
    }
    /// lo..=hi, lo is the simplest
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        debug_assert!(lo <= hi);
        let span = (hi as i128 - lo as i128 + 1) as u128;
        let d = if span > u64::MAX as u128 { self.draw(0) } else { self.draw(span as u64) };
        (lo as i128 + d as i128) as i64
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.int(lo as i64, hi as i64) as usize
    }
    pub fn u64(&mut self) -> u64 {
        self.draw(0)
    }
    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }
    /// true with probability num/den (false is the simplest)
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.draw(xs.len() as u64) as usize;
        &xs[i]
    }
    /// index by weight
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u32 = w.iter().sum();
        let mut d = self.draw(tot as u64) as u32;
        for (i, &x) in w.iter().enumerate() {
            if d < x {
                return i;
            }
            d -= x;
        }
        w.len() - 1
    }
    /// loop control: continue with probability 1-1/avg, at most `max` (caller counts in n)
    pub fn more(&mut self, n: &mut usize, avg: u64, max: usize) -> bool {
        if *n >= max {
            return false;
        }
        *n += 1;
        self.draw(avg) != 0
    }
    /// integer biased to the edges of lo..=hi
    pub fn edgy(&mut self, lo: i64, hi: i64) -> i64 {
        match self.draw(8) {
            0..=4 => self.int(lo, hi),
            5 => self.int(lo, lo.saturating_add(3).min(hi)),
            6 => self.int(hi.saturating_sub(3).max(lo), hi),
            _ => {
                // log-uniform magnitude from lo
                let span = (hi as i128 - lo as i128) as u128;
                let bits = 128 - span.leading_zeros() as u64;
                let b = self.draw(bits.max(1)) + 1;
                let m = if b >= 64 { u64::MAX } else { (1u64 << b) - 1 };
                let v = (self.draw(0) & m) as i128;
                (lo as i128 + v.min(span as i128)) as i64
            }
        }
    }
    /// lo..=hi on a grid of `steps` intervals
    pub fn f(&mut self, lo: f64, hi: f64, steps: u64) -> f64 {
        let k = self.draw(steps + 1);
        lo + (hi - lo) * (k as f64) / (steps as f64)
    }
    pub fn digits(&mut self, n: usize) -> String {
        (0..n).map(|_| char::from(b'0' + self.draw(10) as u8)).collect()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.draw(i as u64 + 1) as usize;
            xs.swap(i, j);
        }
    }
}

// ------------------------------------------------------------------ per-case context
#[derive(Default)]
pub struct Ctx {
    pub note: String,
    pub nontrivial: bool,
    pub thorough: bool,
}
impl Ctx {
    pub fn note(&mut self, s: impl AsRef<str>) {
        if self.note.len() < 6000 {
            if !self.note.is_empty() {
                self.note.push_str("; ");
            }
            self.note.push_str(s.as_ref());
        }
    }
    pub fn nontrivial(&mut self, b: bool) {
        self.nontrivial |= b;
    }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> R;

pub struct Facet {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub serial: bool,
    /// a probe of one specific input: a failure is a known finding when listed in known_findings.txt
    pub probe: bool,
    pub run: CaseFn,
}
pub fn facet(name: &'static str, rule: &'static str, quick: u64, thorough: u64, run: CaseFn) -> Facet {
    Facet { name, rule, quick, thorough, serial: false, probe: false, run }
}
impl Facet {
    pub fn serial(mut self) -> Facet {
        self.serial = true;
        self
    }
}
pub fn probe(name: &'static str, rule: &'static str, run: CaseFn) -> Facet {
    Facet { name, rule, quick: 1, thorough: 1, serial: true, probe: true, run }
}

pub struct Property {
    pub id: &'static str,
    pub facets: Vec<Facet>,
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static CATCHING: RefCell<bool> = const { RefCell::new(false) };
}

/// run f, turning a panic into Err(message); for checks whose property is about panics
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = CATCHING.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    CATCHING.with(|c| *c.borrow_mut() = prev);
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

enum Out {
    Pass,
    Discard,
    Fail(String),
}
fn run_case(f: CaseFn, src: &mut Src, ctx: &mut Ctx) -> Out {
    match no_panic(|| f(src, ctx)) {
        Ok(Ok(())) => Out::Pass,
        Ok(Err(Stop::Discard)) => Out::Discard,
        Ok(Err(Stop::Fail(m))) => Out::Fail(m),
        Err(p) => Out::Fail(format!("panic: {p}")),
    }
}
fn hash64(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
fn case_seed(seed: u64, id: &str, facet: &str, idx: u64) -> u64 {
    let mut x = seed ^ hash64(id).rotate_left(17) ^ hash64(facet) ^ idx.wrapping_mul(0xA24BAED4963EE407);
    splitmix(&mut x)
}

fn shrink(f: CaseFn, draws: Vec<u64>, thorough: bool) -> (Vec<u64>, String, String) {
    let start = Instant::now();
    let mut best = draws;
    let mut msg = String::new();
    let mut note = String::new();
    let mut runs = 0u32;
    let most = if std::env::var("VF_NOSHRINK").is_ok() { 1 } else { 4000 };
    let mut attempt = |cand: &Vec<u64>, best: &mut Vec<u64>| -> bool {
        if runs > most || start.elapsed() > Duration::from_secs(25) {
            return false;
        }
        runs += 1;
        let mut s = Src::replay(cand.clone());
        let mut c = Ctx { thorough, ..Default::default() };
        if let Out::Fail(m) = run_case(f, &mut s, &mut c) {
            let mut d = s.draws;
            while d.last() == Some(&0) {
                d.pop();
            }
            let smaller = d.len() < best.len() || (d.len() == best.len() && d < *best);
            if smaller || msg.is_empty() {
                *best = d;
                msg = m;
                note = c.note;
                return smaller;
            }
        }
        false
    };
    let b0 = best.clone();
    attempt(&b0, &mut best);
    loop {
        let before = best.clone();
        let mut size = best.len().max(1).next_power_of_two().min(64);
        while size >= 1 {
            let mut i = best.len();
            while i >= size {
                i -= size;
                if i + size > best.len() {
                    continue;
                }
                let mut cand = best.clone();
                cand.drain(i..i + size);
                attempt(&cand, &mut best);
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let mut cand = best.clone();
                cand[i] = 0;
                if !attempt(&cand, &mut best) {
                    let (mut lo, mut hi) = (0u64, best[i]);
                    let mut guard = 0;
                    while lo + 1 < hi && guard < 64 && i < best.len() {
                        guard += 1;
                        let mid = lo + (hi - lo) / 2;
                        let mut cand = best.clone();
                        cand[i] = mid;
                        if attempt(&cand, &mut best) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before {
            break;
        }
    }
    drop(attempt);
    if msg.is_empty() {
        // not reproducible from the draws alone (schedule dependent): keep as is
        msg = "not reproduced while shrinking (schedule dependent)".into();
    }
    (best, msg, note)
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct FacetStats {
    evals: u64,
    discards: u64,
    nontrivial: HashSet<u64>,
    samples: Vec<String>,
    fails: Vec<(u64, Vec<u64>, String, String)>,
}

fn replay_path(root: &str, id: &str, facet: &str) -> String {
    let _ = std::fs::create_dir_all(format!("{root}/replays"));
    format!("{root}/replays/{id}-{facet}.json")
}
fn write_replay(path: &str, id: &str, facet: &str, seed: u64, idx: u64, draws: &[u64], msg: &str, note: &str) {
    let d: Vec<String> = draws.iter().map(|x| x.to_string()).collect();
    let _ = std::fs::write(
        path,
        format!(
            "{{\n \"property\": {}, \"facet\": {}, \"seed\": {}, \"case\": {},\n \"draws\": [{}],\n \"failure\": {},\n \"case_text\": {},\n \"replay_cmd\": {}\n}}\n",
            esc(id), esc(facet), seed, idx, d.join(","), esc(msg), esc(note),
            esc(&format!("./check.sh {id} --replay {path}"))
        ),
    );
}

fn hang_limit(tier: &str) -> u64 {
    if tier == "thorough" { 240 } else { 90 }
}

pub fn main(props: Vec<Property>) {
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("VF_ROOT").unwrap_or_else(|_| "/verif".into());
    if args.len() < 2 {
        for p in &props {
            out!("{}", p.id);
        }
        return;
    }
    let id = args[1].clone();
    let Some(prop) = props.into_iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    if std::env::var("VF_CHILD").is_err() {
        supervise(&args, &root, &id, seed);
    }
    if std::env::var("VF_VERBOSE").is_err() {
        hush();
    }
    std::panic::set_hook(Box::new(|info| {
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {loc}"));
        if !CATCHING.with(|c| *c.borrow()) && std::env::var("VF_VERBOSE").is_ok() {
            eprintln!("panic in helper thread: {m} at {loc}");
        }
    }));
    if args.get(2).map(|s| s.as_str()) == Some("--replay") {
        let txt = std::fs::read_to_string(&args[3]).expect("replay file");
        let fname = txt.split("\"facet\": \"").nth(1).and_then(|s| s.split('"').next()).expect("facet").to_string();
        let fc = prop.facets.iter().find(|f| f.name == fname).expect("facet exists");
        let mut src = match txt.split("\"draws\": [").nth(1).and_then(|s| s.split(']').next()) {
            Some(d) if !txt.contains("\"draws_unknown\"") => {
                Src::replay(d.split(',').filter_map(|x| x.trim().parse().ok()).collect())
            }
            _ => {
                let num = |k: &str| -> u64 {
                    txt.split(k).nth(1).and_then(|s| s.split(',').next()).and_then(|s| s.trim().parse().ok()).unwrap_or(0)
                };
                Src::random(case_seed(num("\"seed\": "), &id, &fname, num("\"case\": ")))
            }
        };
        let mut ctx = Ctx::default();
        let out = run_case(fc.run, &mut src, &mut ctx);
        out!("case: {}", ctx.note);
        match out {
            Out::Fail(m) => {
                out!("FAILS: {m}");
                out!("VIOLATION property={id} replay={}", args[3]);
                std::process::exit(1)
            }
            Out::Pass => out!("passes"),
            Out::Discard => out!("discarded"),
        }
        return;
    }
    let tier = args.get(2).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let thorough = tier == "thorough";
    let only = std::env::var("VF_FACET").ok();
    let start = Instant::now();
    
    let known: Vec<String> = std::fs::read_to_string(format!("{root}/known_findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter(|l| !l.starts_with('#') && !l.starts_with("fixed:") && !l.trim().is_empty())
        .map(|l| l.trim().to_string())
        .collect();

    let mut violations: Vec<(String, String)> = vec![];
    let mut all: Vec<(&Facet, FacetStats, f64)> = vec![];
    for fc in &prop.facets {
        if let Some(o) = &only {
            if o != fc.name {
                continue;
            }
        }
        let t0 = Instant::now();
        // a slow machine generates fewer cases rather than running out of time
        let deadline = t0 + Duration::from_secs(if thorough { 1800 } else { 400 / prop.facets.len().max(3) as u64 });
        let total = if thorough { fc.thorough } else { fc.quick };
        // for development: a fraction of the cases
        let part: u64 = std::env::var("VF_PART").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
        let total = (total / part.max(1)).max(1);
        let threads = if fc.serial { 1 } else { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8) };
        let next = Arc::new(AtomicU64::new(0));
        let stop = Arc::new(AtomicBool::new(false));
        let stats = Arc::new(Mutex::new(FacetStats {
            evals: 0,
            discards: 0,
            nontrivial: HashSet::new(),
            samples: vec![],
            fails: vec![],
        }));
        let run = fc.run;
        let beats: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new((0..threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect());
        let mut hs = vec![];
        for t in 0..threads {
            let (next, stop, stats, id, beats) = (next.clone(), stop.clone(), stats.clone(), id.clone(), beats.clone());
            let (name, root) = (fc.name, root.clone());
            let h = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let pth = format!("{root}/replays/.progress-{id}-{t}");
                    let mut pf = std::fs::File::create(&pth).ok();
                    let mut local: Vec<(u64, u64)> = vec![];
                    let mut local_samples: Vec<String> = vec![];
                    let (mut evals, mut disc) = (0u64, 0u64);
                    loop {
                        if stop.load(Ordering::Relaxed) || Instant::now() > deadline {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= total {
                            break;
                        }
                        beats[t].0.store(i, Ordering::SeqCst);
                        beats[t].1.store(start.elapsed().as_secs() + 1, Ordering::SeqCst);
                        if let Some(f) = pf.as_mut() {
                            let _ = f.seek(SeekFrom::Start(0));
                            let _ = f.write_all(format!("{name} {i}                    \n").as_bytes());
                        }
                        let mut src = Src::random(case_seed(seed, &id, name, i));
                        let mut ctx = Ctx { thorough, ..Default::default() };
                        let out = run_case(run, &mut src, &mut ctx);
                        beats[t].1.store(0, Ordering::SeqCst);
                        match out {
                            Out::Discard => disc += 1,
                            Out::Pass => {
                                evals += 1;
                                if ctx.nontrivial {
                                    local.push((i, hash64(&ctx.note)));
                                    if local_samples.len() < 2 && i % 7 == 3 || local_samples.is_empty() {
                                        local_samples.push(ctx.note.chars().take(1200).collect());
                                    }
                                }
                            }
                            Out::Fail(m) => {
                                evals += 1;
                                stats.lock().unwrap().fails.push((i, src.draws, m, ctx.note));
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    let mut s = stats.lock().unwrap();
                    s.evals += evals;
                    s.discards += disc;
                    s.nontrivial.extend(local.iter().map(|x| x.1));
                    s.samples.extend(local_samples);
                    let _ = std::fs::remove_file(&pth);
                })
                .unwrap();
            hs.push(h);
        }
        // watchdog
        let mut hung = None;
        loop {
            if hs.iter().all(|h| h.is_finished()) {
                break;
            }
            std::thread::sleep(Duration::from_millis(5));
            let now = start.elapsed().as_secs() + 1;
            for b in beats.iter() {
                let since = b.1.load(Ordering::SeqCst);
                if since != 0 && now > since + hang_limit(tier) {
                    hung = Some(b.0.load(Ordering::SeqCst));
                }
            }
            if hung.is_some() {
                break;
            }
        }
        if let Some(i) = hung {
            let rp = replay_path(&root, &id, fc.name);
            let _ = std::fs::write(
                &rp,
                format!("{{\n \"property\": {}, \"facet\": {}, \"seed\": {}, \"case\": {},\n \"draws_unknown\": true, \"failure\": \"the case did not terminate\"\n}}\n", esc(&id), esc(fc.name), seed, i),
            );
            out!("facet {}: case {} did not terminate within {} s", fc.name, i, hang_limit(tier));
            out!("VIOLATION property={id} replay={rp}");
            std::process::exit(1);
        }
        for h in hs {
            let _ = h.join();
        }
        let mut st = Arc::try_unwrap(stats).ok().unwrap().into_inner().unwrap();
        st.fails.sort_by_key(|f| f.0);
        if let Some((i, draws, m0, n0)) = st.fails.first().cloned() {
            let key = format!("property={} probe={}", id, fc.name);
            if fc.probe && known.iter().any(|k| k.starts_with(&format!("{key} ")) || *k == key) {
                out!("KNOWN-FINDING: property={} {}: {}", id, fc.name, m0);
            } else {
                let (draws, m, n) = shrink(fc.run, draws, thorough);
                let (m, n) = if n.is_empty() { (m0.clone(), n0.clone()) } else { (m, n) };
                let rp = replay_path(&root, &id, fc.name);
                write_replay(&rp, &id, fc.name, seed, i, &draws, &m, &n);
                out!("facet {} case {}: {}\n  first seen as: {}\n  minimal case: {}", fc.name, i, m, m0, n.chars().take(3000).collect::<String>());
                violations.push((fc.name.to_string(), rp));
            }
        }
        if std::env::var("VF_VERBOSE").is_ok() {
            eprintln!("{:>28}: {} evals, {} discards, {} nontrivial, {:.2}s", fc.name, st.evals, st.discards, st.nontrivial.len(), t0.elapsed().as_secs_f64());
        }
        all.push((fc, st, t0.elapsed().as_secs_f64()));
    }
    // evidence
    let evals: u64 = all.iter().map(|a| a.1.evals).sum();
    let nt: usize = all.iter().map(|a| a.1.nontrivial.len()).sum();
    let rules: Vec<String> = all.iter().map(|a| format!("[{}] {}", a.0.name, a.0.rule)).collect();
    let mut samples: Vec<String> = vec![];
    for a in &all {
        for s in a.1.samples.iter().take(2) {
            samples.push(esc(&format!("[{}] {}", a.0.name, s)));
        }
    }
    if samples.is_empty() {
        samples.push(esc("none"));
    }
    let per: Vec<String> = all
        .iter()
        .map(|a| format!("{}: {{\"evaluations\": {}, \"discarded\": {}, \"distinct_nontrivial\": {}, \"seconds\": {:.2}}}", esc(a.0.name), a.1.evals, a.1.discards, a.1.nontrivial.len(), a.2))
        .collect();
    let ass: Vec<String> = prop.assumptions.iter().map(|s| esc(s)).collect();
    let ev = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {}, \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"facets\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3}, \"violations\": {}\n}}\n",
        esc(&id), esc(tier), seed, evals, nt,
        esc(&format!("distinct = distinct rendered cases; {}", rules.join(" | "))),
        per.join(", "), samples.join(", "), ass.join(", "), start.elapsed().as_secs_f64(), violations.len()
    );
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    std::fs::write(format!("{root}/evidence/{id}.json"), ev).expect("write evidence");
    out!("{id} {tier}: {evals} cases, {nt} distinct non-trivial, {} violation(s), {:.1} s", violations.len(), start.elapsed().as_secs_f64());
    for (_, rp) in &violations {
        out!("VIOLATION property={id} replay={rp}");
    }
    std::io::stdout().flush().ok();
    std::process::exit(if violations.is_empty() { 0 } else { 1 });
}

/// run the real work in a child so that a crash (signal) of the code under test is reported, not lost
fn supervise(args: &[String], root: &str, id: &str, seed: u64) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let _ = std::fs::create_dir_all(format!("{root}/replays"));
    let st = std::process::Command::new(std::env::current_exe().unwrap())
        .args(&args[1..])
        .env("VF_CHILD", "1")
        .status()
        .expect("spawn");
    if let Some(c) = st.code() {
        std::process::exit(if c == 0 || c == 1 { c } else { 2 });
    }
    let sig = st.signal().unwrap_or(0);
    if [4, 6, 7, 8, 11].contains(&sig) {
        let mut cands = vec![];
        for t in 0..64 {
            let p = format!("{root}/replays/.progress-{id}-{t}");
            if let Ok(s) = std::fs::read_to_string(&p) {
                let mut it = s.split_whitespace();
                if let (Some(f), Some(i)) = (it.next(), it.next()) {
                    cands.push((f.to_string(), i.to_string()));
                }
                let _ = std::fs::remove_file(&p);
            }
        }
        let rp = format!("{root}/replays/{id}-crash.json");
        let (f, i) = cands.first().cloned().unwrap_or(("?".into(), "0".into()));
        let others: Vec<String> = cands.iter().map(|c| esc(&format!("{} {}", c.0, c.1))).collect();
        let _ = std::fs::write(
            &rp,
            format!("{{\n \"property\": {}, \"facet\": {}, \"seed\": {}, \"case\": {},\n \"draws_unknown\": true, \"failure\": \"process killed by signal {}\",\n \"cases_in_flight\": [{}]\n}}\n", esc(id), esc(&f), seed, i, sig, others.join(",")),
        );
        out!("the code under test crashed the process (signal {sig}); cases in flight: {cands:?}");
        out!("VIOLATION property={id} replay={rp}");
        std::process::exit(1);
    }
    eprintln!("check ended by signal {sig}");
    std::process::exit(2)
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
