//! Small property-based testing engine: every random decision of a case is a
//! bounded draw from a recorded choice sequence, so any case can be replayed
//! and shrunk (delete / zero / lower choices) without knowing what it means.
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- randomness
#[derive(Clone)]
pub struct Rng([u64; 4]);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed;
        let mut n = || {
            z = z.wrapping_add(0x9E3779B97F4A7C15);
            let mut x = z;
            x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
            x ^ (x >> 31)
        };
        Rng([n(), n(), n(), n()])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

/// Source of choices. `0` is always the simplest outcome of a draw.
pub struct Src {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pos: usize,
    pub rec: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), replay: vec![], pos: 0, rec: vec![], spans: vec![] }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src { rng: None, replay: choices, pos: 0, rec: vec![], spans: vec![] }
    }
    /// Uniform in `0..n`.
    pub fn draw(&mut self, n: u64) -> u64 {
        assert!(n > 0, "draw(0)");
        let v = match &mut self.rng {
            Some(r) => r.below(n),
            None => {
                let v = self.replay.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(n - 1)
            }
        };
        self.rec.push(v);
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        lo + self.draw(hi_incl - lo + 1)
    }
    /// True with probability `pct`%; shrinks to false.
    pub fn chance(&mut self, pct: u64) -> bool {
        self.draw(100) >= 100 - pct
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.idx(xs.len())]
    }
    /// Index drawn with the given weights; index 0 is the simplest.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let mut v = self.draw(w.iter().sum());
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        unreachable!()
    }
    pub fn u64any(&mut self) -> u64 {
        let hi = self.draw(1 << 32);
        let lo = self.draw(1 << 32);
        (hi << 32) | lo
    }
    pub fn byte(&mut self) -> u8 {
        self.draw(256) as u8
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut out = Vec::with_capacity(n + 6);
        while out.len() < n {
            let k = (n - out.len()).min(6);
            let w = self.draw(1 << (8 * k));
            out.extend_from_slice(&w.to_le_bytes()[..k]);
        }
        out
    }
    /// Marks the choices of `f` as one deletable unit.
    pub fn span<T>(&mut self, f: impl FnOnce(&mut Src) -> T) -> T {
        let a = self.rec.len();
        let r = f(self);
        self.spans.push((a, self.rec.len()));
        r
    }
    /// A list with a geometric-ish length (mean about `mean`, at most `max`).
    pub fn list<T>(&mut self, mean: u64, max: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        let mut v = vec![];
        while v.len() < max {
            let a = self.rec.len();
            if self.draw(1000) < 1000 / (mean + 1) {
                break;
            }
            v.push(f(self));
            self.spans.push((a, self.rec.len()));
        }
        v
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        // 0 keeps the element in place
        for i in 0..v.len().saturating_sub(1) {
            let j = i + self.idx(v.len() - i);
            v.swap(i, j);
        }
    }
}

// ------------------------------------------------------------------ verdicts
#[derive(Debug, Clone)]
pub struct Fail {
    /// Stable class of the failure, compared with the known-findings file.
    pub key: String,
    pub msg: String,
    /// A panic of the harness itself: an error of the check, not a violation.
    pub harness: bool,
}
pub type R<T = ()> = Result<T, Fail>;
pub fn fail<T>(key: &str, msg: impl Into<String>) -> R<T> {
    Err(Fail { key: key.to_string(), msg: msg.into(), harness: false })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $key:expr, $($m:tt)*) => {
        if !($c) { return $crate::engine::fail($key, format!($($m)*)); }
    };
}

#[derive(Default)]
pub struct Ctx {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub describe: bool,
    pub desc: Vec<String>,
    pub thorough: bool,
    pub checks: u64,
}
impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l)
    }
    pub fn hit(&mut self) {
        self.nontrivial = true
    }
    pub fn say(&mut self, f: impl FnOnce() -> String) {
        if self.describe {
            let s = f();
            self.desc.push(s)
        }
    }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> R;
pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub f: CaseFn,
}
pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

// -------------------------------------------------------------- panic capture
thread_local!(static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None));

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Runs `f`, turning a panic into a failure. A panic raised by harness source
/// (relative path `src/..`) is an error of the check.
pub fn guard<T>(f: impl FnOnce() -> R<T>) -> R<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let (m, l) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            let harness = (l.starts_with("src/") || l.contains("/verif/")) && !m.starts_with("API: ");
            if m.contains(marine_sqlite_connector::BUDGET_MSG) || m.contains("memstore budget") {
                return fail("unbounded-work", "the call used far more storage operations than there are partial chains (non-termination or unbounded work)");
            }
            Err(Fail { key: "panic".into(), msg: format!("panicked at {l}: {m}"), harness })
        }
    }
}
/// Runs a piece of code under test; a panic in it is a failure with this key.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> R<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => {
            let (m, l) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if m.contains(marine_sqlite_connector::BUDGET_MSG) || m.contains("memstore budget") {
                return fail("unbounded-work", "the call used far more storage operations than there are partial chains (non-termination or unbounded work)");
            }
            let harness = (l.contains("/verif/stubs") && m.contains("harness")) || (l.starts_with("src/") && !m.starts_with("API: "));
            Err(Fail { key: "panic".into(), msg: format!("{what}: panicked at {l}: {m}"), harness })
        }
    }
}

// --------------------------------------------------------------------- runner
fn h64(parts: &[&[u8]]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for p in parts {
        for b in p.iter() {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        h = (h ^ 0xff).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}
pub fn case_seed(seed: u64, id: &str, sub: &str, i: u64) -> u64 {
    h64(&[&seed.to_le_bytes(), id.as_bytes(), sub.as_bytes(), &i.to_le_bytes()])
}

pub fn run_case(f: CaseFn, src: &mut Src, ctx: &mut Ctx) -> R {
    guard(|| f(src, ctx))
}

fn shrink(f: CaseFn, thorough: bool, choices: Vec<u64>, spans: Vec<(usize, usize)>, first: Fail) -> (Vec<u64>, Fail, u64) {
    let deadline = Instant::now() + Duration::from_secs(60);
    let mut best = choices;
    let mut best_spans = spans;
    let mut bf = first;
    let mut evals = 0u64;
    let key = bf.key.clone();
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            if evals > 4000 || Instant::now() > deadline {
                false
            } else {
                evals += 1;
                let mut s = Src::replay(cand);
                let mut c = Ctx { thorough, ..Default::default() };
                match run_case(f, &mut s, &mut c) {
                    Err(e) if e.key == key && !e.harness => {
                        let mut rec = s.rec;
                        while rec.last() == Some(&0) {
                            rec.pop();
                        }
                        let better = rec.len() < best.len() || (rec.len() == best.len() && rec < best);
                        if better {
                            best_spans = s.spans;
                            best = rec;
                            bf = e;
                        }
                        better
                    }
                    _ => false,
                }
            }
        }};
    }
    loop {
        let before = best.clone();
        // whole spans, longest first
        let mut sp = best_spans.clone();
        sp.sort_by_key(|(a, b)| std::cmp::Reverse(b - a));
        let mut i = 0;
        while i < sp.len() {
            let (a, b) = sp[i];
            if b <= best.len() && a < b {
                let mut c = best.clone();
                c.drain(a..b);
                if attempt!(c) {
                    sp = best_spans.clone();
                    sp.sort_by_key(|(a, b)| std::cmp::Reverse(b - a));
                    i = 0;
                    continue;
                }
            }
            i += 1;
        }
        // chunks
        for k in [16usize, 8, 4, 2, 1] {
            let mut i = 0;
            while i + k <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + k);
                if !attempt!(c) {
                    let mut c = best.clone();
                    let nz = c[i..i + k].iter().any(|x| *x != 0);
                    c[i..i + k].iter_mut().for_each(|x| *x = 0);
                    if nz {
                        attempt!(c);
                    }
                    i += k;
                }
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if attempt!(c) && i < best.len() {
                    hi = best[i].min(mid);
                } else {
                    lo = mid + 1;
                }
                if i >= best.len() {
                    break;
                }
            }
            i += 1;
        }
        if best == before || evals > 4000 || Instant::now() > deadline {
            break;
        }
    }
    (best, bf, evals)
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub sub: String,
    pub thorough: bool,
    pub key: String,
    pub message: String,
    pub case: Vec<String>,
    pub choices: Vec<u64>,
}

#[derive(Default)]
pub struct SubStats {
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub checks: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<Vec<String>>,
    pub known: BTreeMap<String, (u64, String)>,
}

pub enum Outcome {
    Ok,
    Violation(Replay),
    HarnessError(String),
}

pub struct RunCfg {
    pub seed: u64,
    pub thorough: bool,
    pub known: Vec<(String, String)>,
    pub slots: Option<std::fs::File>,
    pub scale_pct: u64,
    /// Called with (sub, case) when a case has been running for `HANG_S`.
    pub on_hang: Box<dyn Fn(usize, u64) + Sync + Send>,
}
pub const HANG_S: u64 = 300;

pub fn run_sub(id: &str, si: usize, sub: &Sub, cfg: &RunCfg) -> (SubStats, Outcome) {
    let n = (if cfg.thorough { sub.thorough } else { sub.quick } * cfg.scale_pct / 100).max(1);
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let total = Mutex::new(SubStats::default());
    let failures: Mutex<Vec<(u64, Vec<u64>, Vec<(usize, usize)>, Fail)>> = Mutex::new(vec![]);
    let running: Vec<Mutex<Option<(Instant, u64)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
    let live = AtomicU64::new(threads as u64);
    std::thread::scope(|sc| {
        {
            // cases take milliseconds; one that runs for minutes does not end
            let (running, live) = (&running, &live);
            sc.spawn(move || {
                let mut n = 0u64;
                while live.load(Ordering::SeqCst) > 0 {
                    std::thread::sleep(Duration::from_millis(5));
                    n += 1;
                    if n % 200 != 0 {
                        continue;
                    }
                    for r in running {
                        if let Some((t, i)) = *r.lock().unwrap() {
                            if t.elapsed() > Duration::from_secs(HANG_S) {
                                (cfg.on_hang)(si, i);
                            }
                        }
                    }
                }
            });
        }
        for w in 0..threads {
            let (running, live) = (&running, &live);
            let (next, stop, total, failures) = (&next, &stop, &total, &failures);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                    let mut st = SubStats::default();
                    while !stop.load(Ordering::SeqCst) {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n {
                            break;
                        }
                        if let Some(f) = &cfg.slots {
                            let mut rec = [0u8; 24];
                            rec[..8].copy_from_slice(&1u64.to_le_bytes());
                            rec[8..16].copy_from_slice(&(si as u64).to_le_bytes());
                            rec[16..].copy_from_slice(&i.to_le_bytes());
                            let _ = f.write_at(&rec, (w * 24) as u64);
                        }
                        let mut src = Src::random(case_seed(cfg.seed, id, sub.name, i));
                        let mut ctx = Ctx { thorough: cfg.thorough, describe: i < 16, ..Default::default() };
                        *running[w].lock().unwrap() = Some((Instant::now(), i));
                        let r = run_case(sub.f, &mut src, &mut ctx);
                        *running[w].lock().unwrap() = None;
                        st.evals += 1;
                        st.checks += ctx.checks;
                        for l in &ctx.labels {
                            *st.labels.entry(l).or_default() += 1;
                        }
                        if ctx.nontrivial {
                            let b: Vec<u8> = src.rec.iter().flat_map(|x| x.to_le_bytes()).collect();
                            st.nontrivial.insert(h64(&[&b]));
                        }
                        if ctx.describe && ctx.nontrivial {
                            let mut d = ctx.desc.clone();
                            d.truncate(40);
                            st.samples.push(d);
                        }
                        if let Err(e) = r {
                            if !e.harness && cfg.known.iter().any(|(p, k)| p == id && *k == e.key) {
                                let ent = st.known.entry(e.key.clone()).or_insert((0, e.msg.clone()));
                                ent.0 += 1;
                                continue;
                            }
                            failures.lock().unwrap().push((i, src.rec, src.spans, e));
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                    if let Some(f) = &cfg.slots {
                        let _ = f.write_at(&[0u8; 24], (w * 24) as u64);
                    }
                    let mut t = total.lock().unwrap();
                    t.evals += st.evals;
                    t.checks += st.checks;
                    t.nontrivial.extend(st.nontrivial);
                    for (l, c) in st.labels {
                        *t.labels.entry(l).or_default() += c;
                    }
                    t.samples.extend(st.samples);
                    for (k, (c, m)) in st.known {
                        t.known.entry(k).or_insert((0, m)).0 += c;
                    }
                    live.fetch_sub(1, Ordering::SeqCst);
                })
                .unwrap();
        }
    });
    let total = total.into_inner().unwrap();
    let mut fs = failures.into_inner().unwrap();
    fs.sort_by_key(|f| f.0);
    match fs.into_iter().next() {
        None => (total, Outcome::Ok),
        Some((i, rec, _, e)) if e.harness => {
            let _ = rec;
            (total, Outcome::HarnessError(format!("{id}/{} case {i}: {}", sub.name, e.msg)))
        }
        Some((i, rec, spans, e)) => {
            // one worker thread with a big stack for the shrinker
            let f = sub.f;
            let thorough = cfg.thorough;
            let (choices, fl, evals) = std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || shrink(f, thorough, rec, spans, e))
                .unwrap()
                .join()
                .expect("shrinker");
            let mut s = Src::replay(choices.clone());
            let mut c = Ctx { thorough, describe: true, ..Default::default() };
            let r = std::thread::scope(|sc| sc.spawn(|| run_case(f, &mut s, &mut c)).join().unwrap());
            let fl = r.err().unwrap_or(fl);
            eprintln!("{id}/{}: case {i} failed, {} choices after {evals} shrink steps: {}", sub.name, choices.len(), fl.msg);
            (total, Outcome::Violation(Replay { property: id.into(), sub: sub.name.into(), thorough, key: fl.key, message: fl.msg, case: c.desc, choices }))
        }
    }
}
