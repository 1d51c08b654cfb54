//! Property-based testing engine: a choice-sequence generator (integrated
//! shrinking), a deterministic multi-threaded driver, a watchdog, a supervisor
//! that turns crashes into reports, evidence and replay files.

use std::cell::RefCell;
use std::collections::HashSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// A failed check: `kind` is a stable signature, `msg` the explanation.
#[derive(Clone, Debug)]
pub struct Fail {
    pub kind: String,
    pub msg: String,
}
impl From<String> for Fail {
    fn from(s: String) -> Self {
        Fail { kind: "unexpected-error".into(), msg: s }
    }
}
impl From<&str> for Fail {
    fn from(s: &str) -> Self {
        Fail { kind: "unexpected-error".into(), msg: s.into() }
    }
}
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $k:expr, $($t:tt)*) => {
        if !($c) { return Err($crate::Fail{ kind: $k.to_string(), msg: format!($($t)*) }) }
    };
}
#[macro_export]
macro_rules! bail {
    ($k:expr, $($t:tt)*) => { return Err($crate::Fail{ kind: $k.to_string(), msg: format!($($t)*) }) };
}

#[derive(Clone)]
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}
pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    Rng(h).next()
}

/// The source of choices of one case.
pub struct Src {
    prefix: Vec<u64>,
    rng: Option<Rng>,
    pub choices: Vec<u64>,
    nontrivial: bool,
    want_desc: bool,
    desc: String,
}

impl Src {
    fn fresh(seed: u64, want_desc: bool) -> Self {
        Src { prefix: vec![], rng: Some(Rng(seed)), choices: vec![], nontrivial: false, want_desc, desc: String::new() }
    }
    fn replay(prefix: Vec<u64>, want_desc: bool) -> Self {
        Src { prefix, rng: None, choices: vec![], nontrivial: false, want_desc, desc: String::new() }
    }
    /// A value in [0, bound).
    pub fn draw(&mut self, bound: u64) -> u64 {
        let bound = bound.max(1);
        let pos = self.choices.len();
        let v = if pos < self.prefix.len() {
            let p = self.prefix[pos];
            if p >= bound { p % bound } else { p }
        } else if let Some(r) = &mut self.rng {
            ((r.next() as u128 * bound as u128) >> 64) as u64
        } else {
            0
        };
        self.choices.push(v);
        v
    }
    /// Integer in [lo, hi].
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        debug_assert!(hi >= lo);
        lo + self.draw((hi - lo) as u64 + 1) as i64
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        self.int(lo as i64, hi as i64) as usize
    }
    /// usually between `lo` and `hi`; at times, up to `most`
    pub fn few(&mut self, lo: usize, hi: usize, most: usize) -> usize {
        if self.chance(1, 30) {
            self.us(lo, most)
        } else {
            self.us(lo, hi)
        }
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // 0 means false, so that shrinking simplifies
        self.draw(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.draw(v.len() as u64) as usize;
        &v[i]
    }
    /// A float in [lo, hi]: a mixture of coarse values, bounds and full resolution ones.
    pub fn f(&mut self, lo: f64, hi: f64) -> f64 {
        match self.draw(8) {
            0 => {
                // coarse: one of 9 evenly spaced values
                let i = self.draw(9);
                lo + (hi - lo) * i as f64 / 8.
            }
            1 => {
                // integers, when there are any
                let (a, b) = (lo.ceil(), hi.floor());
                if b >= a && b - a < 1e12 {
                    a + self.draw((b - a) as u64 + 1) as f64
                } else {
                    self.uniform(lo, hi)
                }
            }
            2 => {
                // tenths
                let (a, b) = ((lo * 10.).ceil(), (hi * 10.).floor());
                if b >= a && b - a < 1e12 {
                    ((a + self.draw((b - a) as u64 + 1) as f64) / 10.).clamp(lo, hi)
                } else {
                    self.uniform(lo, hi)
                }
            }
            _ => self.uniform(lo, hi),
        }
    }
    pub fn uniform(&mut self, lo: f64, hi: f64) -> f64 {
        const M: u64 = 1 << 52;
        let x = self.draw(M + 1) as f64 / M as f64;
        (lo + (hi - lo) * x).clamp(lo, hi)
    }
    /// Log-uniform in [lo,hi], lo>0
    pub fn logf(&mut self, lo: f64, hi: f64) -> f64 {
        self.uniform(lo.ln(), hi.ln()).exp().clamp(lo, hi)
    }
    pub fn sign(&mut self) -> f64 {
        if self.bool() { -1. } else { 1. }
    }
    /// Marks the case as one that exercises what the facet's rule asks for.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        if b {
            self.nontrivial = true
        }
    }
    /// Human readable description of the case (only built when needed).
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_desc {
            if !self.desc.is_empty() {
                self.desc.push_str("; ");
            }
            let s = f();
            self.desc.push_str(&s);
        }
    }
}

pub type CheckFn = fn(&mut Src) -> R;

#[derive(Clone)]
pub struct Facet {
    pub name: &'static str,
    pub f: CheckFn,
    pub quick: usize,
    pub thorough: usize,
    /// what makes a case non trivial
    pub rule: &'static str,
    pub limit_s: u64,
    pub threads: usize,
}
impl Facet {
    pub fn new(name: &'static str, f: CheckFn, quick: usize, thorough: usize, rule: &'static str) -> Self {
        Facet { name, f, quick, thorough, rule, limit_s: 120, threads: 8 }
    }
    pub fn threads(mut self, n: usize) -> Self {
        self.threads = n;
        self
    }
    pub fn limit(mut self, s: u64) -> Self {
        self.limit_s = s;
        self
    }
}

pub struct Property {
    pub id: &'static str,
    pub facets: Vec<Facet>,
    pub assumptions: Vec<&'static str>,
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

fn run_case(f: CheckFn, src: &mut Src) -> R {
    let r = catch_unwind(AssertUnwindSafe(|| f(src)));
    match r {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC_MSG.with(|p| p.borrow().clone());
            Err(Fail { kind: "panic".into(), msg: format!("panicked: {}", m) })
        }
    }
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

static OUT_FD: AtomicUsize = AtomicUsize::new(1);
pub fn say(s: &str) {
    let fd = OUT_FD.load(Ordering::SeqCst) as i32;
    let line = format!("{}\n", s);
    unsafe {
        libc::write(fd, line.as_ptr() as *const libc::c_void, line.len());
    }
}

fn silence() {
    unsafe {
        let keep = libc::dup(1);
        OUT_FD.store(keep as usize, Ordering::SeqCst);
        if std::env::var("VH_NOISY").is_err() {
            let null = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY);
            libc::dup2(null, 1);
            libc::dup2(null, 2);
        }
    }
}

struct Known {
    property: String,
    facet: String,
    kind: String,
    contains: String,
    text: String,
}

fn known_findings(id: &str) -> Vec<Known> {
    let p = verif_dir().join("known_findings.json");
    let mut ret = vec![];
    if let Ok(s) = std::fs::read_to_string(p) {
        if let Ok(v) = serde_json::from_str::<serde_json::Value>(&s) {
            for e in v["known"].as_array().cloned().unwrap_or_default() {
                let g = |k: &str| e[k].as_str().unwrap_or("").to_string();
                if g("property") == id {
                    ret.push(Known { property: g("property"), facet: g("facet"), kind: g("kind"), contains: g("contains"), text: g("text") });
                }
            }
        }
    }
    ret
}
fn is_known(k: &[Known], facet: &str, f: &Fail) -> Option<usize> {
    k.iter().position(|k| k.facet == facet && k.kind == f.kind && !k.kind.is_empty() && f.msg.contains(&k.contains))
}

fn case_seed(seed: u64, id: &str, facet: &str, i: u64) -> u64 {
    let mut r = Rng(hash_str(&format!("{}/{}/{}", seed, id, facet)) ^ i.wrapping_mul(0xD1342543DE82EF95));
    r.next();
    r.next()
}

fn shrink(f: CheckFn, start: Vec<u64>, first: Fail, budget: Duration) -> (Vec<u64>, Fail, usize) {
    let t0 = Instant::now();
    let mut best = start;
    let mut fail = first;
    let mut tries = 0usize;
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, fail: &mut Fail| -> bool {
        if cand == *best {
            return false;
        }
        tries += 1;
        let mut s = Src::replay(cand, false);
        if let Err(e) = run_case(f, &mut s) {
            if e.kind == fail.kind {
                let c = s.choices.clone();
                if c.len() < best.len() || (c.len() == best.len() && c < *best) {
                    *best = c;
                    *fail = e;
                    return true;
                }
            }
        }
        false
    };
    let over = |t0: &Instant| t0.elapsed() > budget;
    loop {
        let before = best.clone();
        for size in [32usize, 16, 8, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                if over(&t0) {
                    return (best, fail, tries);
                }
                let mut c = best.clone();
                c.drain(i..i + size);
                if !attempt(c, &mut best, &mut fail) {
                    let mut c = best.clone();
                    if i + size <= c.len() {
                        for x in c[i..i + size].iter_mut() {
                            *x = 0;
                        }
                        if !attempt(c, &mut best, &mut fail) {
                            i += 1;
                        }
                    }
                }
            }
        }
        let mut i = 0;
        while i < best.len() {
            if over(&t0) {
                return (best, fail, tries);
            }
            let (mut lo, mut hi) = (0u64, best[i]);
            let mut guard = 0;
            while lo < hi && guard < 64 {
                guard += 1;
                if over(&t0) || i >= best.len() {
                    break;
                }
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if attempt(c, &mut best, &mut fail) {
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before {
            return (best, fail, tries);
        }
    }
}

struct Slot {
    start_ms: AtomicU64, // 0: idle
    idx: AtomicU64,
}

fn write_replay(id: &str, facet: &str, seed: u64, idx: u64, choices: Option<&[u64]>, fail: &Fail, desc: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{}.json", id, facet));
    let v = serde_json::json!({
        "property": id, "facet": facet, "seed": seed, "case": idx,
        "choices": choices, "kind": fail.kind, "message": fail.msg, "input": desc,
        "how": format!("bash /verif/run.sh replay {}", p.display()),
    });
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
    p
}

fn describe(f: CheckFn, choices: &[u64]) -> String {
    let mut s = Src::replay(choices.to_vec(), true);
    let _ = run_case(f, &mut s);
    s.desc
}

fn now_ms() -> u64 {
    use std::time::{SystemTime, UNIX_EPOCH};
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_millis() as u64
}

/// Runs a property; returns the exit code.
fn run_property(p: &Property, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let known = known_findings(p.id);
    let journal: Option<Mutex<std::fs::File>> = std::env::var("VH_JOURNAL").ok().map(|f| Mutex::new(std::fs::File::create(f).unwrap()));
    let only = std::env::var("VH_FACET").ok();
    let scale: f64 = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let mut total = 0u64;
    let mut distinct = 0u64;
    let mut samples: Vec<serde_json::Value> = vec![];
    let mut rules: Vec<String> = vec![];
    let mut per_facet = serde_json::Map::new();
    let mut violations: Vec<serde_json::Value> = vec![];
    let mut known_hits: Vec<usize> = vec![];
    for facet in &p.facets {
        if let Some(o) = &only {
            if o != facet.name {
                continue;
            }
        }
        let n = ((if tier == "thorough" { facet.thorough } else { facet.quick }) as f64 * scale).ceil() as u64;
        let nthreads = if journal.is_some() { 1 } else { facet.threads.max(1) };
        let next = AtomicU64::new(0);
        let min_fail = AtomicU64::new(u64::MAX);
        let fails: Mutex<Vec<(u64, Vec<u64>, Fail)>> = Mutex::new(vec![]);
        let seen: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
        let ran = AtomicU64::new(0);
        let kh: Mutex<HashSet<usize>> = Mutex::new(HashSet::new());
        let slots: Vec<Slot> = (0..nthreads).map(|_| Slot { start_ms: AtomicU64::new(0), idx: AtomicU64::new(0) }).collect();
        let facet_samples: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
        let done = AtomicBool::new(false);
        let tf = Instant::now();
        std::thread::scope(|sc| {
            // watchdog
            sc.spawn(|| {
                while !done.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(50));
                    let now = now_ms();
                    for s in &slots {
                        let st = s.start_ms.load(Ordering::SeqCst);
                        if st != 0 && now.saturating_sub(st) > facet.limit_s * 1000 {
                            let idx = s.idx.load(Ordering::SeqCst);
                            let fail = Fail { kind: "no-termination".into(), msg: format!("case did not finish within {} s (cases normally take milliseconds)", facet.limit_s) };
                            // prefer a failure found earlier, if any
                            let fl = fails.lock().unwrap();
                            let path = if let Some((i, c, f)) = fl.first() {
                                write_replay(p.id, facet.name, seed, *i, Some(c), f, "")
                            } else {
                                write_replay(p.id, facet.name, seed, idx, None, &fail, "")
                            };
                            say(&format!("{}: facet {} case {}: {}", p.id, facet.name, idx, fail.msg));
                            say(&format!("VIOLATION property={} replay={}", p.id, path.display()));
                            let v = serde_json::json!([{"facet": facet.name, "kind": fail.kind, "message": fail.msg, "replay": path.display().to_string()}]);
                            write_evidence(p, tier, seed, total + ran.load(Ordering::SeqCst), distinct + seen.lock().unwrap().len() as u64, &rules.join(" | "), &samples, &per_facet, t0.elapsed().as_secs_f64(), v.as_array().unwrap());
                            unsafe { libc::_exit(1) };
                        }
                    }
                }
            });
            let mut hs = vec![];
            for t in 0..nthreads {
                let (next, min_fail, fails, seen, ran, kh, slots, facet_samples, known, journal) = (&next, &min_fail, &fails, &seen, &ran, &kh, &slots, &facet_samples, &known, &journal);
                let h = std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n || i > min_fail.load(Ordering::SeqCst) {
                            break;
                        }
                        if let Some(j) = journal {
                            let mut j = j.lock().unwrap();
                            let _ = std::io::Seek::seek(&mut *j, std::io::SeekFrom::Start(0));
                            let _ = j.write_all(format!("{:<40} {:>20}", facet.name, i).as_bytes());
                        }
                        slots[t].idx.store(i, Ordering::SeqCst);
                        slots[t].start_ms.store(now_ms(), Ordering::SeqCst);
                        let mut s = Src::fresh(case_seed(seed, p.id, facet.name, i), false);
                        let r = run_case(facet.f, &mut s);
                        slots[t].start_ms.store(0, Ordering::SeqCst);
                        ran.fetch_add(1, Ordering::SeqCst);
                        if s.nontrivial {
                            let mut h = 0x1234567u64;
                            for c in &s.choices {
                                h = Rng(h ^ *c).next();
                            }
                            seen.lock().unwrap().insert(h);
                        }
                        let is_sample = s.nontrivial && r.is_ok() && i < 40 && facet_samples.lock().unwrap().len() < 3;
                        if is_sample {
                            let mut s2 = Src::replay(s.choices.clone(), true);
                            slots[t].start_ms.store(now_ms(), Ordering::SeqCst);
                            let _ = run_case(facet.f, &mut s2);
                            slots[t].start_ms.store(0, Ordering::SeqCst);
                            let mut d = s2.desc;
                            if d.len() > 400 {
                                let mut k = 400;
                                while !d.is_char_boundary(k) {
                                    k -= 1;
                                }
                                d.truncate(k);
                            }
                            facet_samples.lock().unwrap().push((i, d));
                        }
                        if let Err(e) = r {
                            if let Some(k) = is_known(known, facet.name, &e) {
                                kh.lock().unwrap().insert(k);
                            } else {
                                min_fail.fetch_min(i, Ordering::SeqCst);
                                fails.lock().unwrap().push((i, s.choices.clone(), e));
                            }
                        }
                    })
                    .unwrap();
                hs.push(h);
            }
            for h in hs {
                let _ = h.join();
            }
            done.store(true, Ordering::SeqCst);
        });
        for k in kh.into_inner().unwrap() {
            if !known_hits.contains(&k) {
                known_hits.push(k);
            }
        }
        let nran = ran.load(Ordering::SeqCst);
        let nd = seen.lock().unwrap().len() as u64;
        total += nran;
        distinct += nd;
        rules.push(format!("{}: {}", facet.name, facet.rule));
        let mut fs = facet_samples.into_inner().unwrap();
        fs.sort();
        for (i, d) in fs {
            samples.push(serde_json::json!({"facet": facet.name, "case": i, "input": d}));
        }
        per_facet.insert(
            facet.name.to_string(),
            serde_json::json!({"cases": nran, "distinct_nontrivial": nd, "rule": facet.rule, "wall_s": tf.elapsed().as_secs_f64()}),
        );
        let mut fl = fails.into_inner().unwrap();
        fl.sort_by_key(|x| x.0);
        if let Some((i, choices, e)) = fl.into_iter().next() {
            // shrink under its own watchdog: if a candidate hangs, report what we have
            let best0 = write_replay(p.id, facet.name, seed, i, Some(&choices), &e, "");
            let (id, fname) = (p.id.to_string(), facet.name.to_string());
            let finished = std::sync::Arc::new(AtomicBool::new(false));
            let fin2 = finished.clone();
            let b2 = best0.clone();
            let m2 = e.msg.clone();
            std::thread::spawn(move || {
                let t = Instant::now();
                while t.elapsed() < Duration::from_secs(75) {
                    std::thread::sleep(Duration::from_millis(200));
                    if fin2.load(Ordering::SeqCst) {
                        return;
                    }
                }
                say(&format!("{}: facet {} (not fully shrunk): {}", id, fname, m2));
                say(&format!("VIOLATION property={} replay={}", id, b2.display()));
                unsafe { libc::_exit(1) };
            });
            let (c, e, tries) = std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn({
                    let f = facet.f;
                    move || shrink(f, choices, e, Duration::from_secs(25))
                })
                .unwrap()
                .join()
                .unwrap();
            finished.store(true, Ordering::SeqCst);
            let d = describe(facet.f, &c);
            let path = write_replay(p.id, facet.name, seed, i, Some(&c), &e, &d);
            say(&format!("{}: facet {} case {} violates the property [{}]: {}", p.id, facet.name, i, e.kind, e.msg));
            say(&format!("  minimal input ({} shrink attempts): {}", tries, d));
            say(&format!("VIOLATION property={} replay={}", p.id, path.display()));
            violations.push(serde_json::json!({"facet": facet.name, "kind": e.kind, "message": e.msg, "input": d, "replay": path.display().to_string()}));
        }
    }
    for k in &known_hits {
        say(&format!("KNOWN-FINDING: property={} {}", known[*k].property, known[*k].text));
    }
    let wall = t0.elapsed().as_secs_f64();
    write_evidence(p, tier, seed, total, distinct, &rules.join(" | "), &samples, &per_facet, wall, &violations);
    say(&format!("{} [{}] seed={} cases={} distinct non-trivial={} wall={:.1}s violations={}", p.id, tier, seed, total, distinct, wall, violations.len()));
    if violations.is_empty() {
        0
    } else {
        1
    }
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(p: &Property, tier: &str, seed: u64, total: u64, distinct: u64, rule: &str, samples: &[serde_json::Value], per_facet: &serde_json::Map<String, serde_json::Value>, wall: f64, violations: &[serde_json::Value]) {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let v = serde_json::json!({
        "property": p.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": { "evaluations": total, "distinct_nontrivial": distinct, "rule": rule, "samples": samples, "facets": per_facet },
        "wall_s": wall,
        "assumptions": p.assumptions,
        "violations": violations,
    });
    let _ = std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&v).unwrap());
}

fn replay_file(props: &[Property], path: &Path) -> i32 {
    let s = std::fs::read_to_string(path).expect("cannot read the replay file");
    let v: serde_json::Value = serde_json::from_str(&s).expect("bad replay file");
    let id = v["property"].as_str().unwrap_or("");
    let fname = v["facet"].as_str().unwrap_or("");
    let p = match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => return 3, // not one of ours
    };
    let facet = p.facets.iter().find(|f| f.name == fname).expect("unknown facet");
    let mut src = match v["choices"].as_array() {
        Some(a) => Src::replay(a.iter().map(|x| x.as_u64().unwrap()).collect(), true),
        None => Src::fresh(case_seed(v["seed"].as_u64().unwrap(), id, fname, v["case"].as_u64().unwrap()), true),
    };
    let r = run_case(facet.f, &mut src);
    say(&format!("input: {}", src.desc));
    match r {
        Ok(()) => {
            say("replay: the property held");
            0
        }
        Err(e) => {
            say(&format!("replay: [{}] {}", e.kind, e.msg));
            say(&format!("VIOLATION property={} replay={}", id, path.display()));
            1
        }
    }
}

/// `bin check <ID> [quick|thorough]`, `bin replay <file>`, `bin list`
pub fn main_with(props: Vec<Property>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "list" => {
            for p in &props {
                println!("{}", p.id);
            }
            std::process::exit(0)
        }
        "check" | "replay" => {}
        _ => {
            eprintln!("usage: check <ID> [tier] | replay <file> | list");
            std::process::exit(2)
        }
    }
    let worker = std::env::var("VH_WORKER").is_ok();
    if !worker {
        // supervisor
        let exe = std::env::current_exe().unwrap();
        let run = |journal: Option<&Path>| {
            let mut c = std::process::Command::new(&exe);
            c.args(&args[1..]).env("VH_WORKER", "1");
            if let Some(j) = journal {
                c.env("VH_JOURNAL", j);
            }
            c.status().expect("cannot start the worker")
        };
        let st = run(None);
        if let Some(c) = st.code() {
            if c == 0 || c == 1 || c == 2 || c == 3 {
                std::process::exit(c);
            }
        }
        if cmd == "replay" {
            let v = std::fs::read_to_string(&args[2]).unwrap_or_default();
            let v: serde_json::Value = serde_json::from_str(&v).unwrap_or_default();
            println!("replay: the process died: {:?}", st);
            println!("VIOLATION property={} replay={}", v["property"].as_str().unwrap_or("?"), args[2]);
            std::process::exit(1);
        }
        // the worker died: find the case, one thread, journalling
        let id = args[2].clone();
        let j = verif_dir().join(format!("replays/{}.journal", id));
        let _ = std::fs::create_dir_all(j.parent().unwrap());
        println!("{}: worker died ({:?}); locating the case", id, st);
        let st2 = run(Some(&j));
        if let Some(c) = st2.code() {
            if c == 1 {
                std::process::exit(1);
            }
            if c == 0 {
                println!("{}: the crash did not repeat; no verdict", id);
                std::process::exit(2);
            }
        }
        let s = std::fs::read_to_string(&j).unwrap_or_default();
        let _ = std::fs::remove_file(&j);
        let mut it = s.split_whitespace();
        let facet = it.next().unwrap_or("?").to_string();
        let idx: u64 = it.next().and_then(|s| s.parse().ok()).unwrap_or(0);
        let seed = env_seed();
        let f = Fail { kind: "crash".into(), msg: format!("the process died ({:?}) while running this case", st2) };
        let path = write_replay(&id, &facet, seed, idx, None, &f, "");
        println!("{}: facet {} case {}: {}", id, facet, idx, f.msg);
        println!("VIOLATION property={} replay={}", id, path.display());
        if let Some(p) = props.iter().find(|p| p.id == id) {
            let v = serde_json::json!([{"facet": facet, "kind": f.kind, "message": f.msg, "replay": path.display().to_string()}]);
            write_evidence(p, &tier_of(&args), seed, idx, 0, "", &[], &serde_json::Map::new(), 0., v.as_array().unwrap());
        }
        std::process::exit(1);
    }
    // worker
    unsafe {
        let lim = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{}{}", m, loc));
    }));
    silence();
    let code = if cmd == "replay" {
        let path = PathBuf::from(&args[2]);
        std::thread::Builder::new().stack_size(16 << 20).spawn(move || replay_file(&props, &path)).unwrap().join().unwrap_or(2)
    } else {
        let id = args.get(2).cloned().unwrap_or_default();
        let tier = tier_of(&args);
        match props.iter().find(|p| p.id == id) {
            Some(p) => run_property(p, &tier, env_seed()),
            None => {
                say(&format!("unknown property {}", id));
                2
            }
        }
    };
    unsafe { libc::_exit(code) }
}

fn tier_of(args: &[String]) -> String {
    args.get(3).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into())
}
fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

/// |a-b| <= abs + rel*max(|a|,|b|), with NaN never close
pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    if a == b {
        return true;
    }
    a.is_finite() && b.is_finite() && (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}
