//! The exploration engine: enumerates finite spaces completely, in parallel, on the real code.
//!
//! Two kinds of exploration are offered:
//!  * `Run::cases`: a space that is indexed 0..n (all words, all trees, all products up to a bound);
//!  * `Run::bfs`: breadth-first search over histories of operations with canonical model states.
//!
//! Every execution is identified by (stage, key); a failing one is written to a replay file and
//! can be re-executed alone with `mc replay FILE`.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const KEYMAX: usize = 24;
pub const SLOT: usize = 64; // u64 words per thread slot
pub const NAMEOFF: usize = 32; // stage name, up to 31*8 bytes
pub const HANG_SECS: u64 = 90;

#[derive(Clone, Debug)]
pub struct Fail {
    /// id of a documented deviation, only if the actual behaviour is exactly the documented one
    pub known: Option<&'static str>,
    pub what: String,
    pub detail: String,
}
pub type R = Result<(), Fail>;

pub fn fail<T>(what: impl Into<String>, detail: impl Into<String>) -> Result<T, Fail> {
    let mut detail: String = detail.into();
    if detail.len() > 20_000 {
        detail = crate::spec::clip(&detail);
    }
    Err(Fail { known: None, what: what.into(), detail })
}
pub fn known<T>(id: &'static str, what: impl Into<String>, detail: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { known: Some(id), what: what.into(), detail: detail.into() })
}

/// compare and describe
#[macro_export]
macro_rules! same {
    ($what:expr, $input:expr, $exp:expr, $act:expr) => {{
        match (&$exp, &$act) {
            (e, a) => {
                if e != a {
                    return $crate::engine::fail(
                        $what,
                        format!("input: {}\nexpected: {:?}\nactual:   {:?}", $input, e, a),
                    );
                }
            }
        }
    }};
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $what:expr, $detail:expr) => {
        if !$cond {
            return $crate::engine::fail($what, $detail);
        }
    };
}

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
pub fn h128<T: Hash + ?Sized>(t: &T) -> u128 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    let a = h.finish();
    0x9e3779b97f4a7c15u64.hash(&mut h);
    t.hash(&mut h);
    ((a as u128) << 64) | h.finish() as u128
}

/// per-thread statistics of one stage
#[derive(Default)]
pub struct Stats {
    states: HashSet<u64>,
    capped: bool,
    transitions: u64,
    pub sampling: bool,
    /// a single recorded execution is repeated: show it before it runs
    pub replay: bool,
    samples: Vec<String>,
}
const STATE_CAP: usize = 1_000_000; // per thread and stage
impl Stats {
    /// a model state (canonical expected observation) was reached
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.states.len() < STATE_CAP {
            self.states.insert(h64(t));
        } else {
            self.capped = true;
        }
    }
    /// the implementation took a step that was compared with the model
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.sampling && self.samples.len() < 4 {
            let mut s = f();
            let max = if self.replay { 4000 } else { 400 };
            if s.len() > max {
                let mut c = max;
                while !s.is_char_boundary(c) {
                    c -= 1
                }
                s.truncate(c);
                s.push('…');
            }
            if self.replay {
                println!("case: {s}");
                return;
            }
            self.samples.push(s)
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Debug)]
pub struct StageReport {
    pub name: String,
    pub bounds: String,
    pub executions: u64,
    pub states: u64,
    pub transitions: u64,
    pub capped: bool,
    pub wall: f64,
    pub samples: Vec<String>,
    pub max_depth: Option<usize>,
}

pub struct Slots {
    base: *mut u64,
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}
impl Slots {
    pub fn open(path: &str, create: bool) -> Slots {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(create)
            .truncate(false)
            .open(path)
            .expect("slot file");
        let len = 64 * SLOT * 8;
        f.set_len(len as u64).unwrap();
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                len,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED, "mmap");
        Slots { base: p as *mut u64 }
    }
    pub fn anon() -> Slots {
        let v = vec![0u64; 64 * SLOT].into_boxed_slice();
        Slots { base: Box::leak(v).as_mut_ptr() }
    }
    fn at(&self, t: usize, i: usize) -> &AtomicU64 {
        debug_assert!(t < 64 && i < SLOT);
        unsafe { AtomicU64::from_ptr(self.base.add(t * SLOT + i)) }
    }
    fn begin_stage(&self, t: usize, name: &str) {
        let b = name.as_bytes();
        for w in 0..(SLOT - NAMEOFF) {
            let mut x = [0u8; 8];
            for k in 0..8 {
                x[k] = *b.get(w * 8 + k).unwrap_or(&0);
            }
            self.at(t, NAMEOFF + w).store(u64::from_le_bytes(x), Relaxed);
        }
    }
    fn begin(&self, t: usize, key: &[u64]) {
        self.at(t, 2).store(key.len() as u64, Relaxed);
        for (i, k) in key.iter().take(KEYMAX).enumerate() {
            self.at(t, 3 + i).store(*k, Relaxed);
        }
        self.at(t, 0).fetch_add(1, Relaxed);
        self.at(t, 1).store(1, Relaxed);
    }
    fn end(&self, t: usize) {
        self.at(t, 1).store(0, Relaxed);
    }
    /// (stage, key) of the execution thread `t` is in
    pub fn current(&self, t: usize) -> Option<(String, Vec<u64>)> {
        if self.at(t, 1).load(Relaxed) == 0 {
            return None;
        }
        let n = (self.at(t, 2).load(Relaxed) as usize).min(KEYMAX);
        let key = (0..n).map(|i| self.at(t, 3 + i).load(Relaxed)).collect();
        let mut name = Vec::new();
        for w in 0..(SLOT - NAMEOFF) {
            name.extend_from_slice(&self.at(t, NAMEOFF + w).load(Relaxed).to_le_bytes());
        }
        while name.last() == Some(&0) {
            name.pop();
        }
        Some((String::from_utf8_lossy(&name).into_owned(), key))
    }
    fn seq(&self, t: usize) -> u64 {
        self.at(t, 0).load(Relaxed)
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub stage: String,
    pub key: Vec<u64>,
    pub what: String,
    pub detail: String,
}

pub struct Run {
    pub prop: String,
    pub tier: Tier,
    pub replay: Option<(String, Vec<u64>)>,
    pub replayed: AtomicBool,
    pub slots: Slots,
    pub threads: usize,
    pub only: Option<String>,
    pub known_listed: Vec<String>,
    pub known_seen: Mutex<BTreeMap<&'static str, (u64, String)>>,
    pub reports: Mutex<Vec<StageReport>>,
    pub violation: Mutex<Option<Violation>>,
    pub stop: AtomicBool,
    pub assumptions: Mutex<Vec<String>>,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{info}");
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
}
pub fn guarded<T>(f: impl FnOnce() -> Result<T, Fail>) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => fail("panicked", PANIC.with(|p| p.borrow().clone())),
    }
}

impl Run {
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    fn skip(&self, name: &str) -> bool {
        if self.stop.load(Relaxed) {
            return true;
        }
        if let Some(o) = &self.only {
            if !name.contains(o.as_str()) {
                return true;
            }
        }
        matches!(&self.replay, Some((s, _)) if s != name)
    }
    /// true: count it as known and go on; false: it is a violation
    fn triage(&self, f: &Fail) -> bool {
        if let Some(id) = f.known {
            if self.known_listed.iter().any(|k| k == id) {
                let mut m = self.known_seen.lock().unwrap();
                let e = m.entry(id).or_insert((0, f.what.clone()));
                e.0 += 1;
                return true;
            }
        }
        false
    }
    fn record(&self, name: &str, key: &[u64], f: Fail) {
        let mut v = self.violation.lock().unwrap();
        let better = match &*v {
            None => true,
            Some(o) => o.stage == name && (key.len(), key) < (o.key.len(), &o.key[..]),
        };
        if better {
            *v = Some(Violation { stage: name.into(), key: key.to_vec(), what: f.what, detail: f.detail });
        }
        self.stop.store(true, Relaxed);
    }

    /// explores every case 0..n
    pub fn cases<F>(&self, name: &str, bounds: &str, n: usize, f: F)
    where
        F: Fn(usize, &mut Stats) -> R + Sync,
    {
        if self.skip(name) {
            return;
        }
        let t0 = Instant::now();
        if let Some((_, key)) = &self.replay {
            self.replayed.store(true, Relaxed);
            let mut st = Stats { sampling: true, replay: true, ..Default::default() };
            let i = key[0] as usize;
            self.slots.begin_stage(0, name);
            self.slots.begin(0, key);
            let r = guarded(|| f(i, &mut st));
            self.slots.end(0);
            if let Err(e) = r {
                if !self.triage(&e) {
                    self.record(name, key, e);
                }
            }
            return;
        }
        let next = AtomicUsize::new(0);
        let chunk = (n / (self.threads * 32)).clamp(1, 512);
        let done = AtomicU64::new(0);
        let all: Mutex<Vec<Stats>> = Mutex::new(Vec::new());
        std::thread::scope(|sc| {
            for t in 0..self.threads {
                let (next, done, all, f) = (&next, &done, &all, &f);
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(sc, move || {
                        self.slots.begin_stage(t, name);
                        let mut st = Stats::default();
                        let mut execs = 0;
                        'work: loop {
                            let a = next.fetch_add(chunk, Relaxed);
                            if a >= n {
                                break;
                            }
                            for i in a..(a + chunk).min(n) {
                                if self.stop.load(Relaxed) {
                                    break 'work;
                                }
                                st.sampling = i == 0 || i == n / 2 || i == n - 1;
                                self.slots.begin(t, &[i as u64]);
                                let r = guarded(|| f(i, &mut st));
                                self.slots.end(t);
                                execs += 1;
                                if let Err(e) = r {
                                    if !self.triage(&e) {
                                        self.record(name, &[i as u64], e);
                                        break 'work;
                                    }
                                }
                            }
                        }
                        done.fetch_add(execs, Relaxed);
                        all.lock().unwrap().push(st);
                    })
                    .unwrap();
            }
        });
        self.finish(name, bounds, done.into_inner(), all.into_inner().unwrap(), t0, None, None);
    }

    fn finish(
        &self,
        name: &str,
        bounds: &str,
        execs: u64,
        all: Vec<Stats>,
        t0: Instant,
        states: Option<u64>,
        max_depth: Option<usize>,
    ) {
        let mut set: HashSet<u64> = HashSet::new();
        let mut capped = false;
        let mut transitions = 0;
        let mut samples = Vec::new();
        for mut s in all {
            capped |= s.capped;
            transitions += s.transitions;
            samples.append(&mut s.samples);
            if set.is_empty() {
                set = s.states;
            } else {
                set.extend(s.states);
            }
        }
        let rep = StageReport {
            name: name.into(),
            bounds: bounds.into(),
            executions: execs,
            states: states.unwrap_or(set.len() as u64),
            transitions,
            capped,
            wall: t0.elapsed().as_secs_f64(),
            samples,
            max_depth,
        };
        println!(
            "  {:<34} executions={:<9} states={:<9} transitions={:<10} {:.2}s  [{}]",
            rep.name, rep.executions, rep.states, rep.transitions, rep.wall, rep.bounds
        );
        self.reports.lock().unwrap().push(rep);
    }

    /// breadth-first search over histories of operations 0..ops up to `depth` operations.
    /// `step` applies an operation to (a clone of) a state, comparing the implementation with the
    /// model, and returns the successor (None: operation not enabled); `canon` identifies states
    /// with the same futures.
    pub fn bfs<S, I, P, C>(&self, name: &str, bounds: &str, ops: usize, depth: usize, init: I, step: P, canon: C)
    where
        S: Send + Sync,
        I: Fn() -> S + Sync,
        P: Fn(&S, usize, &mut Stats) -> Result<Option<S>, Fail> + Sync,
        C: Fn(&S) -> u128 + Sync,
    {
        if self.skip(name) {
            return;
        }
        let t0 = Instant::now();
        if let Some((_, key)) = &self.replay {
            self.replayed.store(true, Relaxed);
            let mut st = Stats { sampling: true, replay: true, ..Default::default() };
            let mut s = init();
            self.slots.begin_stage(0, name);
            self.slots.begin(0, key);
            for (n, op) in key.iter().enumerate() {
                match guarded(|| step(&s, *op as usize, &mut st)) {
                    Ok(Some(x)) => s = x,
                    Ok(None) => {
                        println!("operation {n} not enabled: diverged");
                        break;
                    }
                    Err(e) => {
                        if !self.triage(&e) {
                            self.record(name, &key[..=n], e);
                        }
                        break;
                    }
                }
            }
            self.slots.end(0);
            return;
        }
        let s0 = init();
        let mut seen: HashSet<u128> = HashSet::new();
        seen.insert(canon(&s0));
        let mut frontier: Vec<(Vec<u8>, S)> = vec![(vec![], s0)];
        let stats: Mutex<Vec<Stats>> = Mutex::new(Vec::new());
        let execs = AtomicU64::new(0);
        let mut reached = 0;
        for d in 0..depth {
            if frontier.is_empty() || self.stop.load(Relaxed) {
                break;
            }
            let next = AtomicUsize::new(0);
            // states reached by the last operation are checked, but nothing starts from them
            let last = d + 1 == depth;
            let out: Mutex<Vec<(Vec<u8>, u128, Option<S>)>> = Mutex::new(Vec::new());
            let n = frontier.len();
            let chunk = (n / (self.threads * 8)).clamp(1, 64);
            std::thread::scope(|sc| {
                for t in 0..self.threads {
                    let (next, out, step, canon, frontier, stats, execs, seen) =
                        (&next, &out, &step, &canon, &frontier, &stats, &execs, &seen);
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn_scoped(sc, move || {
                            self.slots.begin_stage(t, name);
                            let mut st = Stats::default();
                            let mut mine: Vec<(Vec<u8>, u128, Option<S>)> = Vec::new();
                            let mut fresh: HashSet<u128> = HashSet::new();
                            'work: loop {
                                let a = next.fetch_add(chunk, Relaxed);
                                if a >= n {
                                    break;
                                }
                                for (path, s) in &frontier[a..(a + chunk).min(n)] {
                                    for op in 0..ops {
                                        if self.stop.load(Relaxed) {
                                            break 'work;
                                        }
                                        let key: Vec<u64> = path
                                            .iter()
                                            .map(|x| *x as u64)
                                            .chain(std::iter::once(op as u64))
                                            .collect();
                                        self.slots.begin(t, &key);
                                        st.sampling = a == 0 && op == ops - 1;
                                        let r = guarded(|| step(s, op, &mut st));
                                        self.slots.end(t);
                                        match r {
                                            Ok(None) => {}
                                            Ok(Some(x)) => {
                                                execs.fetch_add(1, Relaxed);
                                                let c = canon(&x);
                                                if !seen.contains(&c) && fresh.insert(c) {
                                                    if last {
                                                        mine.push((vec![], c, None));
                                                    } else {
                                                        let mut p = path.clone();
                                                        p.push(op as u8);
                                                        mine.push((p, c, Some(x)));
                                                    }
                                                }
                                            }
                                            Err(e) => {
                                                if !self.triage(&e) {
                                                    self.record(name, &key, e);
                                                    break 'work;
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                            out.lock().unwrap().append(&mut mine);
                            stats.lock().unwrap().push(st);
                        })
                        .unwrap();
                }
            });
            let mut new = out.into_inner().unwrap();
            new.sort_by(|a, b| a.0.cmp(&b.0));
            frontier = Vec::new();
            for (p, c, s) in new {
                if seen.insert(c) {
                    reached = d + 1;
                    if let Some(s) = s {
                        frontier.push((p, s));
                    }
                }
            }
        }
        self.finish(
            name,
            bounds,
            execs.into_inner(),
            stats.into_inner().unwrap(),
            t0,
            Some(seen.len() as u64),
            Some(reached),
        );
    }
}

pub fn watchdog(run: &'static Run, on_hang: impl Fn(Violation) + Send + 'static) {
    std::thread::spawn(move || {
        let mut last: Vec<(u64, Instant)> = (0..64).map(|_| (0, Instant::now())).collect();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for (t, l) in last.iter_mut().enumerate() {
                let s = run.slots.seq(t);
                if s != l.0 {
                    *l = (s, Instant::now());
                } else if l.1.elapsed() > Duration::from_secs(HANG_SECS) {
                    if let Some((stage, key)) = run.slots.current(t) {
                        on_hang(Violation {
                            stage,
                            key,
                            what: "does not terminate".into(),
                            detail: format!("no result after {HANG_SECS} s"),
                        });
                    }
                    l.1 = Instant::now();
                }
            }
        }
    });
}

// ---------------------------------------------------------------- enumeration helpers

/// mixed-radix decoder of a case index
pub struct Dec(pub usize);
impl Dec {
    pub fn n(&mut self, base: usize) -> usize {
        let r = self.0 % base;
        self.0 /= base;
        r
    }
    pub fn of<'a, T: ?Sized>(&mut self, xs: &[&'a T]) -> &'a T {
        xs[self.n(xs.len())]
    }
    pub fn bool(&mut self) -> bool {
        self.n(2) == 1
    }
}

/// number of words of length <= k over an alphabet of a symbols
pub fn words_upto(a: usize, k: usize) -> usize {
    (0..=k).map(|j| a.pow(j as u32)).sum()
}
/// the i-th word in shortlex order
pub fn word(mut i: usize, a: usize) -> Vec<usize> {
    let mut len = 0;
    let mut c = 1;
    while i >= c {
        i -= c;
        c *= a;
        len += 1;
    }
    let mut w = vec![0; len];
    for k in (0..len).rev() {
        w[k] = i % a;
        i /= a;
    }
    w
}
pub fn spell(i: usize, alphabet: &[&str]) -> String {
    word(i, alphabet.len()).into_iter().map(|x| alphabet[x]).collect()
}

/// all small sizes, then those around powers of two and ten, up to max
pub fn sizes(dense: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=dense).collect();
    for b in [2usize, 10] {
        let mut p = b;
        while p <= max {
            v.extend([p - 1, p, p + 1, p + p / 2]);
            p *= b;
        }
    }
    v.retain(|n| *n <= max);
    v.sort();
    v.dedup();
    v
}
