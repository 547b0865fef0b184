//! Property-testing engine: runs the sections of a check, shrinks failures, writes replay files and
//! evidence.  It knows nothing about rusty-machine.
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{self, AssertUnwindSafe};
use std::path::PathBuf;
use std::process::{exit, Command};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub mod gen;
pub mod literals;
pub mod stat;
pub use gen::{hash_str, mix, G, SplitMix};

/// Why a case failed.
#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
    /// Id of the recorded defect whose exact signature this failure has, if any.
    pub known: Option<&'static str>,
}
impl From<String> for Fail {
    fn from(msg: String) -> Fail {
        Fail { msg, known: None }
    }
}
impl<'a> From<&'a str> for Fail {
    fn from(msg: &'a str) -> Fail {
        Fail { msg: msg.to_string(), known: None }
    }
}
/// Ok(true): the property held on a non-trivial case.  Ok(false): held, but the case is trivial.
pub type Res = Result<bool, Fail>;

pub type CaseFn = fn(&mut G) -> Res;

#[derive(Clone, Copy)]
pub struct Section {
    pub name: &'static str,
    /// Cases in the quick tier.
    pub quick: usize,
    /// Cases in the thorough tier.
    pub thorough: usize,
    pub run: CaseFn,
}
pub const fn sec(name: &'static str, quick: usize, thorough: usize, run: CaseFn) -> Section {
    Section { name, quick, thorough, run }
}

/// A case function on larger data: `dim` goes up to the factor times its bound.
#[macro_export]
macro_rules! large {
    ($name:ident, $of:ident, $factor:expr) => {
        fn $name(g: &mut $crate::G) -> $crate::Res {
            g.boost = $factor;
            $of(g)
        }
    };
}

/// A case function on many rows: `rows` goes up to the number given.
#[macro_export]
macro_rules! many {
    ($name:ident, $of:ident, $rows:expr) => {
        fn $name(g: &mut $crate::G) -> $crate::Res {
            g.rows_max = $rows;
            $of(g)
        }
    };
}

/// Every section's counts are multiplied by these.
const QUICK: f64 = 8.;
const THOROUGH: f64 = 10.;

pub struct Check {
    pub id: &'static str,
    /// How cases are made, and what makes one non-trivial.
    pub rule: &'static str,
    pub sections: &'static [Section],
    pub assumptions: &'static [&'static str],
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($fmt:tt)*) => {
        if !$c { return Err($crate::Fail::from(format!($($fmt)*))); }
    };
}
#[macro_export]
macro_rules! fail {
    ($($fmt:tt)*) => { return Err($crate::Fail::from(format!($($fmt)*))) };
}
/// A failure that has the exact signature of a recorded defect.
#[macro_export]
macro_rules! known {
    ($id:expr, $($fmt:tt)*) => { return Err($crate::Fail { msg: format!($($fmt)*), known: Some($id) }) };
}

/// |a-b| <= tol*(1+max(|a|,|b|)); equal infinities and two NaN do count as different unless identical.
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    if a == b {
        return true;
    }
    if !a.is_finite() || !b.is_finite() {
        return false;
    }
    (a - b).abs() <= tol * (1. + a.abs().max(b.abs()))
}
pub fn rel_close(a: f64, b: f64, tol: f64) -> bool {
    if a == b {
        return true;
    }
    a.is_finite() && b.is_finite() && (a - b).abs() <= tol * a.abs().max(b.abs())
}
pub fn all_close(a: &[f64], b: &[f64], tol: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(*x, *y, tol))
}

thread_local! {
    static QUIET: RefCell<Option<String>> = RefCell::new(None);
    /// Set by a panic that stands for undefined behaviour (an unchecked access the stand-in of rulinalg found to be out of
    /// range): a case that caught it has failed all the same.
    static UNDEFINED: RefCell<Option<String>> = RefCell::new(None);
}

/// Run `f`, turning a panic into Err(message).
pub fn guard<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => Err(panic_text(e)),
    }
}
fn panic_text(e: Box<dyn Any + Send>) -> String {
    let loc = QUIET.with(|q| q.borrow_mut().take()).unwrap_or_default();
    let m = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    };
    format!("panic: {} {}", m, loc)
}

struct Slot {
    section: AtomicUsize,
    case: AtomicU64,
    /// ms since start when the case began; 0 = idle
    since: AtomicU64,
    tid: AtomicU64,
}

struct Failure {
    section: usize,
    case: u64,
    choices: Vec<u64>,
    fail: Fail,
}

/// Counts distinct values: exactly up to 16 million, beyond that as the number of marked places of
/// a table of 2^32, which can only be too low.
#[derive(Default)]
struct Distinct {
    exact: HashSet<u64>,
    table: Vec<u64>,
    marked: usize,
}
impl Distinct {
    fn mark(&mut self, v: u64) {
        let b = (mix(&[v]) >> 32) as usize;
        let (w, m) = (b / 64, 1u64 << (b % 64));
        if self.table[w] & m == 0 {
            self.table[w] |= m;
            self.marked += 1;
        }
    }
    fn extend(&mut self, vs: Vec<u64>) {
        for v in vs {
            if self.table.is_empty() {
                self.exact.insert(v);
                if self.exact.len() > 16_000_000 {
                    self.table = vec![0; 1 << 26];
                    for v in std::mem::take(&mut self.exact) {
                        self.mark(v);
                    }
                }
            } else {
                self.mark(v);
            }
        }
    }
    fn len(&self) -> usize {
        if self.table.is_empty() { self.exact.len() } else { self.marked }
    }
}
#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: Distinct,
    per_section: BTreeMap<usize, (u64, u64)>,
    known: BTreeMap<&'static str, (u64, String)>,
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub root: PathBuf,
    pub only: Option<String>,
    pub scale: f64,
}

fn case_seed(o: &Opts, c: &Check, s: &Section, i: u64) -> u64 {
    mix(&[o.seed, hash_str(c.id), hash_str(s.name), i])
}

fn eval(f: CaseFn, g: &mut G) -> Result<bool, Fail> {
    UNDEFINED.with(|u| *u.borrow_mut() = None);
    let r = guard(|| f(g));
    if let Some(m) = UNDEFINED.with(|u| u.borrow_mut().take()) {
        return Err(Fail { msg: m, known: None });
    }
    match r {
        Ok(r) => r,
        Err(m) => Err(Fail { msg: m, known: None }),
    }
}

/// Replays a choice list; returns the (normalised) choices it consumed and the failure, if any.
fn try_script(f: CaseFn, script: &[u64], thorough: bool) -> Option<(Vec<u64>, Fail)> {
    let mut g = G::scripted(script.to_vec(), false, thorough);
    match eval(f, &mut g) {
        Err(e) => Some((g.choices, e)),
        Ok(_) => None,
    }
}

fn simpler(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a) < (b.len(), b)
}

fn shrink(f: CaseFn, start: Vec<u64>, fail: Fail, thorough: bool, unlisted: &dyn Fn(&Fail) -> bool) -> (Vec<u64>, Fail) {
    let t0 = Instant::now();
    let mut best = start;
    let mut why = fail;
    let budget = Duration::from_secs(25);
    let mut tries = 0u32;
    loop {
        let before = best.clone();
        let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, why: &mut Fail| -> bool {
            if t0.elapsed() > budget || tries > 20000 {
                return false;
            }
            tries += 1;
            if let Some((c, e)) = try_script(f, &cand, thorough) {
                if unlisted(&e) && simpler(&c, best) {
                    *best = c;
                    *why = e;
                    return true;
                }
            }
            false
        };
        // delete blocks
        let mut len = best.len().max(1) / 2;
        while len > 0 {
            let mut i = 0;
            while i + len <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + len);
                if !attempt(c, &mut best, &mut why) {
                    i += len;
                }
            }
            len /= 2;
        }
        // zero blocks
        let mut len = best.len().max(1) / 2;
        while len > 0 {
            let mut i = 0;
            while i + len <= best.len() {
                if best[i..i + len].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..i + len] {
                        *x = 0;
                    }
                    attempt(c, &mut best, &mut why);
                }
                i += len;
            }
            len /= 2;
        }
        // lower single values, also together with dropping what a lower count leaves over
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            while i < best.len() && lo < best[i] {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !attempt(c, &mut best, &mut why) {
                    if mid == lo {
                        let mut c = best.clone();
                        c[i] = best[i] - 1;
                        if !attempt(c, &mut best, &mut why) {
                            break;
                        }
                    }
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before || t0.elapsed() > budget || tries > 20000 {
            return (best, why);
        }
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn render(s: &Section, choices: &[u64], thorough: bool) -> (Vec<(String, String)>, Result<bool, Fail>) {
    let mut g = G::scripted(choices.to_vec(), true, thorough);
    let r = eval(s.run, &mut g);
    (g.notes, r)
}

/// Ids listed in KNOWN_FINDINGS for this property ("known: property=C01 id=xyz ...").
fn listed_findings(root: &PathBuf, id: &str) -> Vec<(String, String)> {
    let mut v = Vec::new();
    if let Ok(t) = std::fs::read_to_string(root.join("KNOWN_FINDINGS")) {
        for l in t.lines() {
            if let Some(rest) = l.strip_prefix("known: ") {
                let mut it = rest.splitn(3, ' ');
                let p = it.next().unwrap_or("");
                let k = it.next().unwrap_or("");
                let d = it.next().unwrap_or("");
                if p == format!("property={}", id) {
                    if let Some(k) = k.strip_prefix("id=") {
                        v.push((k.to_string(), d.to_string()));
                    }
                }
            }
        }
    }
    v
}

fn replay_path(o: &Opts, id: &str, section: &str) -> PathBuf {
    let d = o.root.join("replays");
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("{}-{}.txt", id, section))
}

fn write_replay(o: &Opts, c: &Check, s: &Section, case: u64, choices: &[u64], msg: &str, notes: &[(String, String)]) -> PathBuf {
    let p = replay_path(o, c.id, s.name);
    let mut t = String::new();
    t.push_str(&format!("property={}\nsection={}\nseed={} case={}\n", c.id, s.name, o.seed, case));
    t.push_str(&format!("tier={}\n", if o.thorough { "thorough" } else { "quick" }));
    t.push_str(&format!("choices={}\n", choices.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
    t.push_str(&format!("failure: {}\n", msg));
    for (k, v) in notes {
        t.push_str(&format!("  {} = {}\n", k, v));
    }
    t.push_str(&format!("\nrerun: ./check.sh {} --replay {}\n", c.id, p.display()));
    let _ = std::fs::write(&p, t);
    p
}

fn write_evidence(o: &Opts, c: &Check, st: &Stats, samples: &[String], wall: f64, violations: usize) {
    let d = o.root.join("evidence");
    let _ = std::fs::create_dir_all(&d);
    let mut secs = Vec::new();
    for (i, s) in c.sections.iter().enumerate() {
        let (n, nt) = st.per_section.get(&i).cloned().unwrap_or((0, 0));
        secs.push(format!("{{\"section\": {}, \"cases\": {}, \"nontrivial\": {}}}", json_str(s.name), n, nt));
    }
    let known: Vec<String> = st
        .known
        .iter()
        .map(|(k, (n, m))| format!("{{\"id\": {}, \"cases\": {}, \"example\": {}}}", json_str(k), n, json_str(m)))
        .collect();
    let t = format!(
        "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"sections\": [{}],\n  \"known_findings_seen\": [{}],\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(c.id),
        if o.thorough { "thorough" } else { "quick" },
        o.seed,
        st.evaluations,
        st.nontrivial.len(),
        json_str(&if c.sections.iter().any(|s| s.name.starts_with("large")) && !c.rule.contains("and up to") { format!("{}; in the sections named large the numbers of rows, columns and the like go up to several times these bounds (factors in the source: large!)", c.rule) } else { c.rule.to_string() }),
        secs.join(", "),
        known.join(", "),
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",\n   "),
        c.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        wall,
        violations
    );
    let _ = std::fs::write(d.join(format!("{}.json", c.id)), t);
}

fn silence_panics() {
    panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("at {}:{}", l.file(), l.line())).unwrap_or_default();
        let text = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned());
        if let Some(t) = text.filter(|t| t.starts_with("undefined behaviour")) {
            UNDEFINED.with(|u| *u.borrow_mut() = Some(t));
        }
        QUIET.with(|q| *q.borrow_mut() = Some(loc));
    }));
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
const STATE_BYTES: usize = 4096;
/// A file mapped into memory in which each thread keeps the case it is running, for the parent
/// process to read if this one dies.
fn map_state(p: &PathBuf) -> Option<usize> {
    use std::os::unix::io::AsRawFd;
    let f = std::fs::OpenOptions::new().create(true).truncate(true).read(true).write(true).open(p).ok()?;
    f.set_len(STATE_BYTES as u64).ok()?;
    let m = unsafe { mmap(std::ptr::null_mut(), STATE_BYTES, 3, 1, f.as_raw_fd(), 0) };
    if m as isize == -1 {
        None
    } else {
        Some(m as usize)
    }
}

const HANG_MS: u64 = 60_000;

/// Number of the calling thread, and the processor time a thread has used.
fn own_tid() -> u64 {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().and_then(|f| f.to_str().and_then(|f| f.parse().ok()))).unwrap_or(0)
}
fn cpu_ms(tid: u64) -> Option<u64> {
    let t = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let f: Vec<&str> = t[t.rfind(')')? + 1..].split_whitespace().collect();
    Some(10 * (f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?))
}

fn run_check(o: &Opts, c: &'static Check) -> i32 {
    silence_panics();
    let t0 = Instant::now();
    let listed = listed_findings(&o.root, c.id);
    let secs: Vec<usize> = (0..c.sections.len())
        .filter(|&i| o.only.as_ref().map_or(true, |n| n == c.sections[i].name))
        .collect();
    let count = |s: &Section| -> u64 {
        let n = if o.thorough { s.thorough } else { s.quick };
        ((n as f64 * o.scale * if o.thorough { THOROUGH } else { QUICK }).ceil() as u64).max(1)
    };
    // chunks of work, biggest sections interleaved
    let mut chunks: Vec<(usize, u64, u64)> = Vec::new();
    for &i in &secs {
        let n = count(&c.sections[i]);
        let step = (n / 64).max(1).min(1_000_000);
        let mut a = 0;
        while a < n {
            chunks.push((i, a, (a + step).min(n)));
            a += step;
        }
    }
    let nthreads = std::env::var("VERIF_THREADS").ok().and_then(|v| v.parse().ok()).unwrap_or(8usize).max(1).min(64);
    let slots: Arc<Vec<Slot>> = Arc::new(
        (0..nthreads)
            .map(|_| Slot { section: AtomicUsize::new(0), case: AtomicU64::new(0), since: AtomicU64::new(0), tid: AtomicU64::new(0) })
            .collect(),
    );
    let state_file = o.root.join("replays").join(format!(".state-{}", c.id));
    let _ = std::fs::create_dir_all(o.root.join("replays"));
    let shared: Option<usize> = map_state(&state_file);
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let failures: Mutex<Vec<Failure>> = Mutex::new(Vec::new());
    let stats: Mutex<Stats> = Mutex::new(Stats::default());
    let samples: Mutex<BTreeMap<(usize, u64), Vec<u64>>> = Mutex::new(BTreeMap::new());

    // Watchdog: a case that does not finish is a violation in itself.
    {
        let slots = slots.clone();
        let (root, seed, thorough) = (o.root.clone(), o.seed, o.thorough);
        std::thread::spawn(move || {
            // (case seen, processor time of its thread when it was first seen)
            let mut seen: Vec<(u64, Option<u64>)> = vec![(0, None); slots.len()];
            loop {
            std::thread::sleep(Duration::from_millis(200));
            let now = t0.elapsed().as_millis() as u64 + 1;
            for (t, s) in slots.iter().enumerate() {
                let since = s.since.load(Ordering::SeqCst);
                if since == 0 || now < since + 2000 {
                    continue;
                }
                let cpu = cpu_ms(s.tid.load(Ordering::SeqCst));
                if seen[t].0 != since {
                    seen[t] = (since, cpu);
                }
                // on a loaded machine a case may wait for a processor: what counts is the time it had one
                let busy = match (cpu, seen[t].1) {
                    (Some(a), Some(b)) => a.saturating_sub(b) + 2000 > HANG_MS,
                    _ => now > since + HANG_MS,
                };
                if busy || now > since + 5 * HANG_MS {
                    let o = Opts { seed, thorough, root: root.clone(), only: None, scale: 1. };
                    let (si, case) = (s.section.load(Ordering::SeqCst), s.case.load(Ordering::SeqCst));
                    let p = write_replay(&o, c, &c.sections[si], case, &[], "the case did not finish within 60 s", &[]);
                    println!("section {} case {} did not finish within {} s", c.sections[si].name, case, HANG_MS / 1000);
                    println!("VIOLATION property={} replay={}", c.id, p.display());
                    let _ = std::io::stdout().flush();
                    exit(1);
                }
            }
            }
        });
    }

    std::thread::scope(|sc| {
        for t in 0..nthreads {
            let (next, stop, failures, stats, samples, chunks, slots, listed) =
                (&next, &stop, &failures, &stats, &samples, &chunks, &slots, &listed);
            let b = std::thread::Builder::new().stack_size(16 << 20);
            b.spawn_scoped(sc, move || {
                slots[t].tid.store(own_tid(), Ordering::SeqCst);
                loop {
                    if stop.load(Ordering::SeqCst) {
                        break;
                    }
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= chunks.len() {
                        break;
                    }
                    let (si, a, b) = chunks[k];
                    let s = &c.sections[si];
                    let mut ev = 0u64;
                    let mut nt: Vec<u64> = Vec::new();
                    for i in a..b {
                        if stop.load(Ordering::SeqCst) {
                            break;
                        }
                        slots[t].section.store(si, Ordering::SeqCst);
                        slots[t].case.store(i, Ordering::SeqCst);
                        slots[t].since.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                        if let Some(m) = shared {
                            unsafe {
                                let p = (m as *mut u64).add(2 * t);
                                p.write_volatile(si as u64);
                                p.add(1).write_volatile(i + 1);
                            }
                        }
                        let mut g = G::fresh(case_seed(o, c, s, i), o.thorough);
                        let r = eval(s.run, &mut g);
                        slots[t].since.store(0, Ordering::SeqCst);
                        ev += 1;
                        match r {
                            Ok(n) => {
                                if n {
                                    nt.push(mix(&[si as u64, mix(&g.choices)]));
                                    if i < 2 {
                                        samples.lock().unwrap().insert((si, i), g.choices.clone());
                                    }
                                }
                            }
                            Err(e) => {
                                if let Some(k) = e.known {
                                    if listed.iter().any(|l| l.0 == k) {
                                        let mut st = stats.lock().unwrap();
                                        let x = st.known.entry(k).or_insert((0, e.msg.clone()));
                                        x.0 += 1;
                                        continue;
                                    }
                                }
                                failures.lock().unwrap().push(Failure { section: si, case: i, choices: g.choices, fail: e });
                                stop.store(true, Ordering::SeqCst);
                                break;
                            }
                        }
                    }
                    let mut st = stats.lock().unwrap();
                    st.evaluations += ev;
                    let e = st.per_section.entry(si).or_insert((0, 0));
                    e.0 += ev;
                    e.1 += nt.len() as u64;
                    st.nontrivial.extend(nt);
                }
            })
            .unwrap();
        }
    });
    let _ = std::fs::remove_file(&state_file);

    let st = stats.into_inner().unwrap();
    let mut fs = failures.into_inner().unwrap();
    fs.sort_by_key(|f| (f.section, f.case));
    let mut texts = Vec::new();
    for ((si, _), ch) in samples.into_inner().unwrap().iter() {
        let s = &c.sections[*si];
        let (notes, _) = render(s, ch, o.thorough);
        let mut t = format!("{}: {}", s.name, notes.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(" "));
        if t.len() > 700 {
            let mut k = 700;
            while !t.is_char_boundary(k) {
                k -= 1;
            }
            t.truncate(k);
            t.push_str("...");
        }
        texts.push(t);
    }
    let code = if let Some(f) = fs.into_iter().next() {
        let s = &c.sections[f.section];
        let unlisted = |e: &Fail| !e.known.map_or(false, |k| listed.iter().any(|l| l.0 == k));
        println!("{} {}: case {} failed: {}", c.id, s.name, f.case, f.fail.msg);
        let _ = std::io::stdout().flush();
        // publish something before shrinking, in case shrinking itself gets stuck
        let first = write_replay(o, c, s, f.case, &f.choices, &f.fail.msg, &[]);
        // the parent reports it if shrinking makes the process die
        let _ = std::fs::write(failed_file(o, c), first.to_string_lossy().as_bytes());
        let done = Arc::new(AtomicBool::new(false));
        {
            let done = done.clone();
            let p = replay_path(o, c.id, s.name);
            std::thread::spawn(move || {
                std::thread::sleep(Duration::from_secs(90));
                if !done.load(Ordering::SeqCst) {
                    println!("shrinking did not finish; the unshrunk case is recorded");
                    println!("VIOLATION property={} replay={}", c.id, p.display());
                    let _ = std::io::stdout().flush();
                    exit(1);
                }
            });
        }
        let (ch, why) = shrink(s.run, f.choices, f.fail, o.thorough, &unlisted);
        let (notes, _) = render(s, &ch, o.thorough);
        done.store(true, Ordering::SeqCst);
        let p = write_replay(o, c, s, f.case, &ch, &why.msg, &notes);
        println!("shrunk to {} choices: {}", ch.len(), why.msg);
        for (k, v) in &notes {
            println!("  {} = {}", k, v);
        }
        write_evidence(o, c, &st, &texts, t0.elapsed().as_secs_f64(), 1);
        println!("VIOLATION property={} replay={}", c.id, p.display());
        1
    } else {
        for (k, d) in &listed {
            println!("KNOWN-FINDING: property={} {}: {} [seen in {} cases of this run]", c.id, k, d, st.known.get(k.as_str()).map_or(0, |x| x.0));
        }
        write_evidence(o, c, &st, &texts, t0.elapsed().as_secs_f64(), 0);
        println!(
            "{}: held on {} cases ({} distinct non-trivial) in {:.1} s",
            c.id,
            st.evaluations,
            st.nontrivial.len(),
            t0.elapsed().as_secs_f64()
        );
        0
    };
    let _ = std::fs::remove_file(failed_file(o, c));
    let _ = std::io::stdout().flush();
    code
}
fn failed_file(o: &Opts, c: &Check) -> PathBuf {
    o.root.join("replays").join(format!(".failed-{}", c.id))
}

/// Runs single cases of one section in this thread, for interpreters that watch every memory access
/// (`--interp SECTION,SEED,CAP,COUNT`). Verdicts of the cases themselves are not asked for here.
fn interpreted(c: &'static Check, v: &str) -> i32 {
    silence_panics();
    let f: Vec<&str> = v.split(',').collect();
    let s = match c.sections.iter().find(|s| s.name == f[0]) {
        Some(s) => s,
        None => return 2,
    };
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(1);
    let mut nontrivial = 0;
    for i in 0..n(3) {
        println!("case {} {}", s.name, i);
        let mut g = G::fresh(mix(&[n(1), hash_str(c.id), hash_str(s.name), i]), false);
        g.cap = n(2) as usize;
        match eval(s.run, &mut g) {
            Ok(true) => nontrivial += 1,
            Err(e) if e.msg.starts_with("undefined behaviour") => {
                eprintln!("error: Undefined Behavior: {}", e.msg);
                return 3;
            }
            _ => {}
        }
    }
    println!("finished {}", nontrivial);
    0
}

fn do_replay(o: &Opts, c: &'static Check, path: &str) -> i32 {
    silence_panics();
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {}: {}", path, e);
            return 2;
        }
    };
    let field = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.trim().to_string());
    let name = field("section=").unwrap_or_default();
    let thorough = field("tier=").map_or(false, |x| x == "thorough");
    let s = match c.sections.iter().find(|s| s.name == name) {
        Some(s) => s,
        None => {
            eprintln!("no section {}", name);
            return 2;
        }
    };
    {
        let (id, path) = (c.id, path.to_string());
        std::thread::spawn(move || {
            std::thread::sleep(Duration::from_millis(3 * HANG_MS));
            println!("the replayed case does not finish");
            println!("VIOLATION property={} replay={}", id, path);
            let _ = std::io::stdout().flush();
            exit(1);
        });
    }
    let choices: Vec<u64> = match field("choices=").filter(|x| !x.is_empty()) {
        Some(x) => x.split(',').filter_map(|x| x.parse().ok()).collect(),
        None => {
            // a case that crashed or hung: regenerate it from its seed
            let l = field("seed=").unwrap_or_default();
            let mut it = l.split(" case=");
            let seed: u64 = it.next().and_then(|x| x.parse().ok()).unwrap_or(1);
            let case: u64 = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
            let o2 = Opts { seed, thorough, root: o.root.clone(), only: None, scale: 1. };
            let mut g = G::fresh(case_seed(&o2, c, s, case), thorough);
            let r = eval(s.run, &mut g);
            println!("{:?}", r.map_err(|e| e.msg));
            g.choices
        }
    };
    let (notes, r) = render(s, &choices, thorough);
    for (k, v) in &notes {
        println!("  {} = {}", k, v);
    }
    match r {
        Ok(_) => {
            println!("replay passes");
            0
        }
        Err(e) => {
            println!("replay fails: {}", e.msg);
            println!("VIOLATION property={} replay={}", c.id, path);
            1
        }
    }
}

/// Entry point of a harness binary.
pub fn main(checks: &'static [Check]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 || args[1] == "--list" {
        for c in checks {
            println!("{} {}", c.id, c.sections.iter().map(|s| s.name).collect::<Vec<_>>().join(" "));
        }
        exit(if args.len() < 2 { 2 } else { 0 });
    }
    let id = args[1].clone();
    let c = match checks.iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            eprintln!("unknown property {}", id);
            exit(2)
        }
    };
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let o = Opts {
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"),
        root: PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())),
        only: get("--section"),
        scale: get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.),
    };
    if let Some(v) = get("--interp") {
        exit(interpreted(c, &v));
    }
    if let Some(p) = get("--replay") {
        exit(do_replay(&o, c, &p));
    }
    if args.iter().any(|a| a == "--child") {
        exit(run_check(&o, c));
    }
    let _ = std::fs::remove_file(failed_file(&o, c));
    // Parent: survive a crash (abort, stack overflow, segfault) of the code under test.
    let st = Command::new(std::env::current_exe().unwrap()).args(&args[1..]).arg("--child").status();
    match st {
        Ok(s) => match s.code() {
            Some(k) => exit(k),
            None => {
                use std::os::unix::process::ExitStatusExt;
                let sig = s.signal().unwrap_or(0);
                if sig == 9 || sig == 15 {
                    eprintln!("the check was killed by signal {} (not a verdict)", sig);
                    exit(2);
                }
                if let Ok(first) = std::fs::read_to_string(failed_file(&o, c)) {
                    let _ = std::fs::remove_file(failed_file(&o, c));
                    println!("the process died with signal {} while shrinking; the unshrunk case is recorded", sig);
                    println!("VIOLATION property={} replay={}", c.id, first);
                    exit(1);
                }
                let mut where_ = (0usize, 0u64);
                let mut last = None;
                let mut found = false;
                // Find the case that crashes by running each thread's last case alone.
                let p = o.root.join("replays").join(format!(".state-{}", c.id));
                let bytes = std::fs::read(&p).unwrap_or_default();
                let _ = std::fs::remove_file(&p);
                for t in 0..bytes.len() / 16 {
                    let w = |k: usize| {
                        let mut x = [0u8; 8];
                        x.copy_from_slice(&bytes[16 * t + 8 * k..16 * t + 8 * k + 8]);
                        u64::from_ne_bytes(x)
                    };
                    let (si, case) = (w(0) as usize, w(1));
                    if case == 0 || found || si >= c.sections.len() {
                        continue;
                    }
                    last = Some((si, case - 1));
                    let rp = write_replay(&o, c, &c.sections[si], case - 1, &[], "process died while running this case", &[]);
                    let r = Command::new(std::env::current_exe().unwrap()).args(&[c.id, "--replay", rp.to_str().unwrap()]).output();
                    if r.map_or(false, |x| x.status.code().is_none()) {
                        where_ = (si, case - 1);
                        found = true;
                    } else {
                        let _ = std::fs::remove_file(&rp);
                    }
                }
                if !found && last.is_some() {
                    // the state of the memory decides: the whole run is the reproduction
                    println!("no single case makes the process die, but this run does");
                    where_ = last.unwrap();
                    found = true;
                }
                if !found {
                    eprintln!("the check died with signal {} and no case reproduces it", sig);
                    exit(2);
                }
                let s = &c.sections[where_.0];
                let p = write_replay(&o, c, s, where_.1, &[], &format!("the process died with signal {}", sig), &[]);
                println!("section {} case {}: the process died with signal {}", s.name, where_.1, sig);
                println!("VIOLATION property={} replay={}", c.id, p.display());
                exit(1);
            }
        },
        Err(e) => {
            eprintln!("cannot start: {}", e);
            exit(2)
        }
    }
}
