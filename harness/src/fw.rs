//! Case runner: deterministic numbered cases on several threads, panics caught, hangs and aborts attributable.
use crate::rng::{hash_bytes, mix, Rng};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;
thread_local! {
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub struct Prop {
    pub id: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    /// Cases written by hand, run first.
    pub directed: &'static [fn(&mut Case)],
    /// Random case.
    pub run: fn(&mut Case),
}
#[derive(Default)]
pub struct Out {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub orders: HashSet<u64>,
    pub stats: BTreeMap<String, u64>,
    pub max: BTreeMap<String, f64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub known: BTreeMap<String, (u64, String)>,
    pub harness: Vec<String>,
    pub digests: Vec<(u64, u64)>,
}
pub struct Violation {
    pub case: u64,
    pub sig: String,
    pub msg: String,
}
pub struct Case<'a> {
    pub rng: Rng,
    pub idx: u64,
    pub out: &'a mut Out,
    pub thorough: bool,
    pub bad: bool,
    hash: u64,
    nontrivial: bool,
}
pub struct LibPanic(pub String);
/// Runs library code, a panic of which is returned with its message and place.
pub fn lib<T>(f: impl FnOnce() -> T) -> Result<T, LibPanic> {
    let was = IN_LIB.with(|l| l.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_LIB.with(|l| l.set(was));
    r.map_err(|_| LibPanic(PANIC.with(|p| p.borrow().clone())))
}
impl Case<'_> {
    /// Runs library code which must not panic.
    pub fn lib<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        match lib(f) {
            Ok(v) => Some(v),
            Err(LibPanic(m)) => {
                self.violation(&format!("panic:{what}"), format!("{what} panicked: {m}"));
                None
            }
        }
    }
    pub fn violation(&mut self, sig: &str, msg: impl Into<String>) {
        self.bad = true;
        if self.out.violations.len() < 200 {
            let mut msg: String = msg.into();
            if msg.len() > 4000 {
                let mut n = 4000;
                while !msg.is_char_boundary(n) {
                    n -= 1;
                }
                msg.truncate(n);
            }
            self.out.violations.push(Violation { case: self.idx, sig: sig.into(), msg });
        }
        *self.out.stats.entry("violations".into()).or_default() += 1;
    }
    pub fn known(&mut self, key: &str, msg: impl Into<String>) {
        let e = self.out.known.entry(key.into()).or_insert_with(|| (0, String::new()));
        e.0 += 1;
        if e.1.is_empty() {
            e.1 = msg.into();
        }
    }
    pub fn stat(&mut self, k: &str, n: u64) {
        match self.out.stats.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.out.stats.insert(k.into(), n);
            }
        }
    }
    pub fn maxi(&mut self, k: &str, v: f64) {
        if !v.is_finite() {
            return;
        }
        match self.out.max.get_mut(k) {
            Some(o) => *o = o.max(v),
            None => {
                self.out.max.insert(k.into(), v);
            }
        }
    }
    /// This case really exercised the property; `key` tells different cases apart.
    pub fn nontrivial(&mut self, key: &[u8]) {
        self.nontrivial = true;
        self.hash = hash_bytes(self.hash, key);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.out.samples.len() < 2 {
            let mut s = f();
            if s.len() > 300 {
                let mut n = 300;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
            }
            self.out.samples.push(s);
        }
    }
    /// An order of events which was observed.
    #[allow(dead_code)]
    pub fn interleaving(&mut self, h: u64) {
        self.out.orders.insert(h);
    }
    pub fn digest(&mut self, d: u64) {
        self.out.digests.push((self.idx, d));
    }
}
pub struct Opts {
    pub seed: u64,
    pub cases: u64,
    pub secs: f64,
    pub threads: usize,
    pub thorough: bool,
    pub only: Option<u64>,
    pub journal: Option<String>,
    pub hang_secs: f64,
    pub digest: bool,
    pub skip: Vec<u64>,
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("{msg} at {at}"));
        if !IN_LIB.try_with(|l| l.get()).unwrap_or(true) {
            eprintln!("panic outside of the library: {msg} at {at}");
        }
    }));
}
pub fn case_rng(prop: &str, seed: u64, idx: u64) -> Rng {
    Rng::new(hash_bytes(mix(seed), prop.as_bytes()) ^ mix(idx.wrapping_mul(0x1234_5678_9abc_def1)))
}
fn run_one(p: &Prop, o: &Opts, idx: u64, out: &mut Out) {
    let mut c = Case { rng: case_rng(p.id, o.seed, idx), idx, out, thorough: o.thorough, bad: false, hash: 0, nontrivial: false };
    let r = catch_unwind(AssertUnwindSafe(|| {
        if (idx as usize) < p.directed.len() {
            (p.directed[idx as usize])(&mut c)
        } else {
            (p.run)(&mut c)
        }
    }));
    if r.is_err() {
        let m = PANIC.with(|p| p.borrow().clone());
        if m.contains("/repo/src/") {
            c.violation("panic", format!("a call which the property needs panicked: {m}"));
        } else {
            c.out.harness.push(format!("case {idx}: {m}"));
        }
    }
    c.out.evals += 1;
    if c.nontrivial && c.out.distinct.len() < 4_000_000 {
        let h = c.hash;
        c.out.distinct.insert(h);
    }
}
/// Runs the cases of a property.
pub fn run(p: &'static Prop, o: &Opts) -> (Out, f64) {
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let total = Mutex::new(Out::default());
    let journal = o.journal.as_ref().map(|f| std::fs::File::create(f).expect("journal"));
    let threads = if o.only.is_some() { 1 } else { o.threads };
    let running: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
    let finished = AtomicU64::new(0);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (next, stop, total, journal, running, finished) = (&next, &stop, &total, &journal, &running, &finished);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    let mut out = Out::default();
                    let slot = &running[t];
                    let begin = |idx: u64| {
                        slot.1.store(start.elapsed().as_millis() as u64, Ordering::Relaxed);
                        slot.0.store(idx, Ordering::Release);
                        if let Some(j) = journal {
                            let _ = j.write_at(&idx.to_le_bytes(), t as u64 * 8);
                        }
                    };
                    if let Some(idx) = o.only {
                        begin(idx);
                        run_one(p, o, idx, &mut out);
                    } else {
                        while !stop.load(Ordering::Relaxed) && start.elapsed().as_secs_f64() < o.secs {
                            let idx = next.fetch_add(1, Ordering::Relaxed);
                            if idx >= o.cases {
                                break;
                            }
                            if o.skip.contains(&idx) {
                                continue;
                            }
                            begin(idx);
                            run_one(p, o, idx, &mut out);
                            if out.violations.len() > 20 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    slot.0.store(u64::MAX, Ordering::Release);
                    if let Some(j) = journal {
                        let _ = j.write_at(&u64::MAX.to_le_bytes(), t as u64 * 8);
                    }
                    let mut g = total.lock().unwrap();
                    g.evals += out.evals;
                    g.distinct.extend(out.distinct);
                    g.orders.extend(out.orders);
                    for (k, v) in out.stats {
                        *g.stats.entry(k).or_default() += v;
                    }
                    for (k, v) in out.max {
                        let e = g.max.entry(k).or_insert(v);
                        *e = e.max(v);
                    }
                    g.samples.extend(out.samples);
                    g.violations.extend(out.violations);
                    for (k, v) in out.known {
                        let e = g.known.entry(k).or_insert_with(|| (0, v.1.clone()));
                        e.0 += v.0;
                    }
                    g.harness.extend(out.harness);
                    g.digests.extend(out.digests);
                    finished.fetch_add(1, Ordering::Relaxed);
                })
                .expect("spawn");
        }
        // Watchdog: a case which does not finish is reported, and confirmed on its own by the driver.
        s.spawn(|| loop {
            if finished.load(Ordering::Relaxed) as usize == threads {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(20));
            let now = start.elapsed().as_millis() as u64;
            for slot in &running {
                let idx = slot.0.load(Ordering::Acquire);
                if idx != u64::MAX && now.saturating_sub(slot.1.load(Ordering::Relaxed)) as f64 > o.hang_secs * 1000.0 {
                    println!("HANG {idx}");
                    use std::io::Write;
                    let _ = std::io::stdout().flush();
                    std::process::exit(3);
                }
            }
        });
    });
    let mut out = total.into_inner().unwrap();
    out.violations.sort_by_key(|v| v.case);
    out.digests.sort();
    (out, start.elapsed().as_secs_f64())
}
fn esc(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 0x20 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
pub fn report(p: &Prop, o: &Opts, out: &Out, wall: f64) -> String {
    let stats: Vec<_> = out.stats.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let max: Vec<_> = out.max.iter().map(|(k, v)| format!("{}:{:e}", esc(k), v)).collect();
    let samples: Vec<_> = out.samples.iter().take(6).map(|s| esc(s)).collect();
    let viol: Vec<_> = out
        .violations
        .iter()
        .map(|v| format!("{{\"case\":{},\"sig\":{},\"msg\":{}}}", v.case, esc(&v.sig), esc(&v.msg)))
        .collect();
    let known: Vec<_> = out.known.iter().map(|(k, v)| format!("{}:{{\"count\":{},\"example\":{}}}", esc(k), v.0, esc(&v.1))).collect();
    let harness: Vec<_> = out.harness.iter().take(20).map(|s| esc(s)).collect();
    let digests: Vec<_> = if o.digest { out.digests.iter().map(|(i, d)| format!("[{i},\"{d:016x}\"]")).collect() } else { vec![] };
    format!(
        "{{\"id\":{},\"rule\":{},\"seed\":{},\"evaluations\":{},\"distinct\":{},\"orders\":{},\"wall\":{:.3},\"stats\":{{{}}},\"max\":{{{}}},\"samples\":[{}],\"violations\":[{}],\"known\":{{{}}},\"harness\":[{}],\"digests\":[{}]}}\n",
        esc(p.id), esc(p.rule), o.seed, out.evals, out.distinct.len(), out.orders.len(), wall, stats.join(","), max.join(","), samples.join(","), viol.join(","), known.join(","), harness.join(","), digests.join(",")
    )
}
