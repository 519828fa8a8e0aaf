//! Exhaustive explorers (sweeps and deviation-bounded choice trees), statistics, crash isolation.
use std::cell::RefCell;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::Instant;

pub const SLOTS: usize = 16;
pub const SLOT_DATA: usize = 4 << 20;
pub const SLOT_HDR: usize = 64;
pub const SHM_LEN: usize = SLOTS * (SLOT_DATA + SLOT_HDR);

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// Memory shared between the exploring process and its supervisor: per thread the running case.
pub struct Shm(pub *mut u8);
unsafe impl Send for Shm {}
unsafe impl Sync for Shm {}
impl Shm {
    pub fn open(path: &str) -> Shm {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len(SHM_LEN as u64).unwrap();
        let p = unsafe { mmap(std::ptr::null_mut(), SHM_LEN, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap failed");
        Shm(p)
    }
    fn at(&self, slot: usize) -> *mut u8 {
        unsafe { self.0.add(slot * (SLOT_DATA + SLOT_HDR)) }
    }
    fn word(&self, slot: usize, i: usize) -> &AtomicU64 {
        unsafe { &*(self.at(slot).add(8 * i) as *const AtomicU64) }
    }
    /// Marks slot as running the given case.
    pub fn begin(&self, slot: usize, kind: u8, input: &[u8]) {
        let n = input.len().min(SLOT_DATA);
        unsafe { std::ptr::copy_nonoverlapping(input.as_ptr(), self.at(slot).add(SLOT_HDR), n) };
        self.word(slot, 1).store(n as u64, Relaxed);
        self.word(slot, 2).store(kind as u64, Relaxed);
        self.word(slot, 3).store(1, Release);
        self.word(slot, 0).fetch_add(1, Release);
    }
    pub fn end(&self, slot: usize) {
        self.word(slot, 3).store(0, Release);
        self.word(slot, 0).fetch_add(1, Release);
    }
    /// (sequence number, running case)
    pub fn get(&self, slot: usize) -> (u64, Option<(u8, Vec<u8>)>) {
        let seq = self.word(slot, 0).load(Acquire);
        if self.word(slot, 3).load(Acquire) == 0 {
            return (seq, None);
        }
        let n = (self.word(slot, 1).load(Acquire) as usize).min(SLOT_DATA);
        let k = self.word(slot, 2).load(Acquire) as u8;
        let d = unsafe { std::slice::from_raw_parts(self.at(slot).add(SLOT_HDR), n) };
        (seq, Some((k, d.to_vec())))
    }
    pub fn seq(&self, slot: usize) -> (u64, bool) {
        (self.word(slot, 0).load(Acquire), self.word(slot, 3).load(Acquire) != 0)
    }
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(x) ^ c.len() as u64).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    h
}

/// What one case showed.
pub enum Res {
    /// class of the outcome (for the counters) and a hash identifying the model outcome
    Ok(Kind, u64),
    Bad(String, &'static str),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Accept,
    Reject(&'static str),
    Unspec,
    Other,
}

#[derive(Clone)]
pub struct Violation {
    pub kind: u8,
    pub input: Vec<u8>,
    pub msg: String,
    pub sig: &'static str,
    pub space: String,
    /// the cases before it on the same thread and the case itself, as a TRAIL
    pub trail: Vec<u8>,
}

/// Several cases as one: kind, length and bytes of each.
pub fn join<'a>(cases: impl Iterator<Item = (u8, &'a [u8])>) -> Vec<u8> {
    let mut all = vec![];
    for (kind, input) in cases {
        all.push(kind);
        all.extend((input.len() as u32).to_le_bytes());
        all.extend_from_slice(input);
    }
    all
}
pub fn split(all: &[u8]) -> Vec<(u8, &[u8])> {
    let (mut v, mut at) = (vec![], 0);
    while at + 5 <= all.len() {
        let n = u32::from_le_bytes(all[at + 1..at + 5].try_into().unwrap()) as usize;
        v.push((all[at], &all[at + 5..at + 5 + n]));
        at += 5 + n;
    }
    v
}

#[derive(Default, Clone)]
pub struct SpaceStat {
    pub name: String,
    pub what: String,
    pub cases: u64,
    pub edges: u64,
    pub accept: u64,
    pub reject: u64,
    pub unspec: u64,
    pub complete: bool,
    pub wall: f64,
}

pub struct Ctx {
    pub shm: Option<Shm>,
    pub threads: usize,
    pub stack: usize,
    pub thorough: bool,
    /// development aid: go on after violations
    pub survey: bool,
    pub check: fn(u8, &[u8], &mut Scratch) -> Res,
    /// judges the last cases of a thread once more, together; see history.rs
    pub again: Option<fn(&[Past], &dyn Fn(u8, &[u8])) -> Vec<crate::history::Found>>,
    pub deadline: Instant,
    pub skip: HashSet<u64>,
    pub stop: AtomicBool,
    pub capped: AtomicBool,
    pub states: Mutex<HashSet<u64>>,
    pub saturated: AtomicBool,
    pub rules: Mutex<std::collections::BTreeMap<&'static str, u64>>,
    pub spaces: Mutex<Vec<SpaceStat>>,
    pub samples: Mutex<Vec<String>>,
    pub violations: Mutex<Vec<Violation>>,
    pub total: AtomicU64,
    pub max_peak: AtomicI64,
    pub max_ratio: AtomicI64,
    /// spaces are numbered in the order they are explored; those before `start` were done already
    pub index: AtomicUsize,
    pub start: usize,
    pub sink: Option<Mutex<std::fs::File>>,
    /// while not empty, each case is judged once under each of these
    pub casts: Mutex<Vec<Cast>>,
}

/// Another version, and other flags of the class, put into a class file.
#[derive(Clone, Copy)]
pub struct Cast {
    pub version: [u16; 2],
    pub flags: Option<u16>,
}
/// Where the flags of the class are, if the constant pool can be skipped.
fn flags_at(b: &[u8]) -> Option<usize> {
    let n = u16::from_be_bytes([*b.get(8)?, *b.get(9)?]);
    let (mut i, mut at) = (1, 10);
    while i < n {
        let t = *b.get(at)?;
        at += match t {
            1 => 3 + u16::from_be_bytes([*b.get(at + 1)?, *b.get(at + 2)?]) as usize,
            7 | 8 | 16 | 19 | 20 => 3,
            15 => 4,
            3 | 4 | 9..=12 | 17 | 18 => 5,
            5 | 6 => 9,
            _ => return None,
        };
        i += if t == 5 || t == 6 { 2 } else { 1 };
    }
    (at + 2 <= b.len()).then_some(at)
}

/// A case that was judged: kind, input, and the hash `check` returned.
pub struct Past {
    pub kind: u8,
    pub input: Vec<u8>,
    pub hash: u64,
}

/// Reusable buffers of one exploring thread.
#[derive(Default)]
pub struct Scratch {
    pub a: Vec<u8>,
    pub b: Vec<u8>,
    pub c: Vec<u8>,
    pub warm: bool,
    pub max_peak: i64,
    pub max_ratio: i64,
}

struct Local {
    slot: usize,
    sc: Scratch,
    past: Vec<Past>,
    past_bytes: usize,
    /// the last small cases, the oldest overwritten next
    recent: Vec<(u8, Vec<u8>)>,
    at: usize,
    states: HashSet<u64>,
    rules: std::collections::BTreeMap<&'static str, u64>,
    st: SpaceStat,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("{} at {}", m, l));
    }));
}
/// Runs f; a panic is returned as its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            // keep the payload alive until the message has been taken
            let m = PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()));
            drop(e);
            Err(m)
        }
    }
}

impl Ctx {
    fn run_case(&self, l: &mut Local, kind: u8, input: &[u8]) {
        if !self.skip.is_empty() && self.skip.contains(&fnv(input)) {
            return;
        }
        if let Some(s) = &self.shm {
            s.begin(l.slot, kind, input);
        }
        let r = (self.check)(kind, input, &mut l.sc);
        if let Some(s) = &self.shm {
            s.end(l.slot);
        }
        l.st.cases += 1;
        let r = match r {
            Res::Bad(msg, sig) => {
                self.violation(l, kind, input, msg, sig);
                return;
            }
            r => r,
        };
        if input.len() <= 4096 {
            if l.recent.len() < 16 {
                l.recent.push((kind, input.to_vec()));
            } else {
                let to = &mut l.recent[l.at % 16];
                to.0 = kind;
                to.1.clear();
                to.1.extend_from_slice(input);
            }
            l.at = (l.at + 1) % 16;
        }
        match r {
            Res::Ok(c, h) => {
                if self.again.is_some() {
                    l.past.push(Past { kind, input: input.to_vec(), hash: h });
                    l.past_bytes += input.len();
                    if l.past.len() >= 384 || l.past_bytes >= 256 << 10 {
                        self.look_back(l);
                    }
                }
                match c {
                    Kind::Accept => l.st.accept += 1,
                    Kind::Reject(w) => {
                        l.st.reject += 1;
                        *l.rules.entry(w).or_insert(0) += 1;
                    }
                    Kind::Unspec => l.st.unspec += 1,
                    Kind::Other => (),
                }
                if l.states.len() < 6_000_000 {
                    l.states.insert(h);
                } else {
                    self.saturated.store(true, Relaxed);
                }
            }
            Res::Bad(..) => (),
        }
    }
    /// The cases since the last time, again and together, on a thread of their own.
    fn look_back(&self, l: &mut Local) {
        let past = std::mem::take(&mut l.past);
        l.past_bytes = 0;
        let Some(f) = self.again.filter(|_| !past.is_empty()) else { return };
        let slot = l.slot;
        let r = std::thread::scope(|s| {
            let past = &past;
            let body = move || {
                f(past, &|kind, input| {
                    if let Some(s) = &self.shm {
                        if kind == u8::MAX {
                            s.end(slot);
                        } else {
                            s.begin(slot, kind, input);
                        }
                    }
                })
            };
            std::thread::Builder::new().stack_size(self.stack).spawn_scoped(s, body).unwrap().join()
        });
        for (kind, input, msg) in r.unwrap_or_default() {
            self.violation(l, kind, &input, msg, "differs");
        }
    }
    fn violation(&self, l: &Local, kind: u8, input: &[u8], msg: String, sig: &'static str) {
        let (new, old) = l.recent.split_at(l.at.min(l.recent.len()));
        let before = old.iter().chain(new).map(|(k, b)| (*k, &b[..]));
        let trail = join(before.chain([(kind, input)]));
        let mut v = self.violations.lock().unwrap();
        if self.survey {
            let key = |m: &str| m.chars().filter(|c| !c.is_ascii_digit()).take(60).collect::<String>();
            let k = key(&msg);
            if v.len() < 300 && v.iter().filter(|x| key(&x.msg) == k).count() < 2 {
                v.push(Violation { kind, input: input.to_vec(), msg, sig, space: l.st.name.clone(), trail });
            }
            return;
        }
        if v.len() < 8 {
            v.push(Violation { kind, input: input.to_vec(), msg, sig, space: l.st.name.clone(), trail });
        }
        if v.len() >= 8 {
            self.stop.store(true, Relaxed);
        }
    }
    fn over(&self) -> bool {
        if self.stop.load(Relaxed) {
            return true;
        }
        if Instant::now() >= self.deadline {
            self.capped.store(true, Relaxed);
            self.stop.store(true, Relaxed);
            return true;
        }
        false
    }
    fn sample(&self, s: String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 24 {
            v.push(s);
        }
    }

    /// Number of the next space, or None if it was explored before.
    fn enter(&self, name: &str) -> Option<usize> {
        let k = self.index.fetch_add(1, Relaxed);
        if k < self.start {
            return None;
        }
        self.emit(&["BEGIN", &k.to_string(), name]);
        Some(k)
    }
    pub fn emit(&self, f: &[&str]) {
        use std::io::Write;
        if let Some(s) = &self.sink {
            let l: Vec<String> = f.iter().map(|x| x.replace(['\t', '\n', '\r'], " ")).collect();
            let _ = writeln!(s.lock().unwrap(), "{}", l.join("\t"));
        }
    }
    /// Reports a finished space to the supervisor.
    fn leave(&self, k: usize, m: SpaceStat) {
        for v in self.violations.lock().unwrap().iter().filter(|v| v.space == m.name) {
            let hex: String = v.input.iter().map(|b| format!("{:02x}", b)).collect();
            let trail: String = v.trail.iter().map(|b| format!("{:02x}", b)).collect();
            self.emit(&["VIOL", &v.kind.to_string(), &hex, v.sig, &v.space, &v.msg, &trail]);
        }
        for (r, n) in std::mem::take(&mut *self.rules.lock().unwrap()) {
            self.emit(&["RULE", r, &n.to_string()]);
        }
        for s in std::mem::take(&mut *self.samples.lock().unwrap()) {
            self.emit(&["SAMPLE", &s]);
        }
        self.emit(&["STATES", &self.states.lock().unwrap().len().to_string(), &self.saturated.load(Relaxed).to_string()]);
        self.emit(&["PEAK", &self.max_peak.load(Relaxed).to_string(), &self.max_ratio.load(Relaxed).to_string()]);
        let n = [m.cases, m.edges, m.accept, m.reject, m.unspec].map(|x| x.to_string());
        self.emit(&[
            "SPACE", &k.to_string(), &m.name, &m.what, &n[0], &n[1], &n[2], &n[3], &n[4], &m.complete.to_string(), &format!("{:.3}", m.wall),
        ]);
        self.spaces.lock().unwrap().push(m);
    }

    /// Runs `body` on all threads and merges their statistics into one space.
    fn threads(&self, k: usize, name: &str, what: &str, body: &(dyn Fn(&mut Local) -> bool + Sync)) {
        let t0 = Instant::now();
        if self.over() {
            self.leave(k, SpaceStat { name: name.into(), what: what.into(), ..Default::default() });
            return;
        }
        let merged = Mutex::new(SpaceStat { name: name.into(), what: what.into(), complete: true, ..Default::default() });
        std::thread::scope(|s| {
            for slot in 0..self.threads {
                let merged = &merged;
                std::thread::Builder::new()
                    .stack_size(self.stack)
                    .spawn_scoped(s, move || {
                        let mut l = Local {
                            slot,
                            sc: Scratch::default(),
                            past: vec![],
                            past_bytes: 0,
                            recent: vec![],
                            at: 0,
                            states: HashSet::new(),
                            rules: Default::default(),
                            st: SpaceStat { name: name.into(), ..Default::default() },
                        };
                        let done = body(&mut l);
                        self.look_back(&mut l);
                        self.max_peak.fetch_max(l.sc.max_peak, Relaxed);
                        self.max_ratio.fetch_max(l.sc.max_ratio, Relaxed);
                        let mut m = merged.lock().unwrap();
                        m.cases += l.st.cases;
                        m.edges += l.st.edges;
                        m.accept += l.st.accept;
                        m.reject += l.st.reject;
                        m.unspec += l.st.unspec;
                        m.complete &= done;
                        let mut st = self.states.lock().unwrap();
                        if st.len() < 60_000_000 {
                            st.extend(l.states);
                        } else {
                            self.saturated.store(true, Relaxed);
                        }
                        let mut r = self.rules.lock().unwrap();
                        for (k, v) in l.rules {
                            *r.entry(k).or_insert(0) += v;
                        }
                    })
                    .unwrap();
            }
        });
        let mut m = merged.into_inner().unwrap();
        m.wall = t0.elapsed().as_secs_f64();
        self.total.fetch_add(m.cases, Relaxed);
        self.leave(k, m);
        if !self.survey && !self.violations.lock().unwrap().is_empty() {
            self.stop.store(true, Relaxed);
        }
    }

    /// Exhaustive sweep: cases 0..n. `f` writes case i into the buffer and returns its kind, or
    /// None to leave it out. `mk` makes one generator per thread.
    pub fn sweep<F>(&self, name: &str, what: &str, n: u64, mk: impl Fn() -> F + Sync)
    where
        F: FnMut(u64, &mut Vec<u8>) -> Option<u8>,
    {
        let Some(k) = self.enter(name) else { return };
        let casts = self.casts.lock().unwrap().clone();
        let name = &cast_name(name, &casts);
        let next = AtomicU64::new(0);
        let chunk = (n / (self.threads as u64 * 64)).clamp(1, 4096);
        {
            let mut b = vec![];
            let i = n / 2;
            if n > 0 && !self.over() {
                if let Some(k) = mk()(i, &mut b) {
                    self.sample(sample_text(name, &format!("case {} of {}", i, n), k, &b));
                }
            }
        }
        self.threads(k, name, what, &|l| {
            let mut f = mk();
            let mut buf = Vec::new();
            loop {
                let from = next.fetch_add(chunk, Relaxed);
                if from >= n {
                    return true;
                }
                for i in from..(from + chunk).min(n) {
                    buf.clear();
                    if let Some(k) = f(i, &mut buf) {
                        l.st.edges += 1;
                        self.run_casts(l, k, &mut buf, &casts);
                    }
                }
                if self.over() {
                    return false;
                }
            }
        });
    }

    /// Judges a case, or all it is cast into.
    fn run_casts(&self, l: &mut Local, kind: u8, b: &mut Vec<u8>, casts: &[Cast]) {
        if casts.is_empty() {
            return self.run_case(l, kind, b);
        }
        if kind > crate::check::OFF || b.len() < 10 {
            return;
        }
        let at = flags_at(b);
        let old = at.map(|at| [b[at], b[at + 1]]);
        for c in casts {
            b[4..6].copy_from_slice(&c.version[1].to_be_bytes());
            b[6..8].copy_from_slice(&c.version[0].to_be_bytes());
            if let (Some(at), Some(old)) = (at, old) {
                let module = old[0] & 0x80 != 0;
                match c.flags {
                    Some(_) if module => continue,
                    Some(f) => b[at..at + 2].copy_from_slice(&f.to_be_bytes()),
                    None => b[at..at + 2].copy_from_slice(&old),
                }
            } else if c.flags.is_some() {
                continue;
            }
            l.st.edges += 1;
            self.run_case(l, kind, b);
        }
    }

    /// All executions of the generator `f` with at most k choices that differ from 0.
    pub fn tree(&self, name: &str, what: &str, k: usize, f: impl Fn(&mut Ch) -> Option<(u8, Vec<u8>)> + Sync) {
        self.forest(name, what, k, 1, |ch, _| f(ch))
    }
    /// The same for each of several generators.
    pub fn forest(&self, name: &str, what: &str, k: usize, roots: usize, f: impl Fn(&mut Ch, usize) -> Option<(u8, Vec<u8>)> + Sync) {
        let Some(space) = self.enter(name) else { return };
        let casts = self.casts.lock().unwrap().clone();
        let name = &cast_name(name, &casts);
        type Node = (usize, Vec<(u32, u32)>);
        let q: Mutex<(Vec<Node>, usize)> = Mutex::new(((0..roots).map(|r| (r, vec![])).collect(), 0));
        let cv = Condvar::new();
        let sampled = AtomicUsize::new(0);
        self.threads(space, name, what, &|l| {
            loop {
                let mut batch: Vec<Node>;
                {
                    let mut g = q.lock().unwrap();
                    loop {
                        if self.over() {
                            cv.notify_all();
                            return g.0.is_empty() && g.1 == 0;
                        }
                        if !g.0.is_empty() {
                            let at = g.0.len().saturating_sub(64);
                            batch = g.0.split_off(at);
                            g.1 += 1;
                            break;
                        }
                        if g.1 == 0 {
                            cv.notify_all();
                            return true;
                        }
                        g = cv.wait_timeout(g, std::time::Duration::from_millis(50)).unwrap().0;
                    }
                }
                let mut out = vec![];
                let mut steps = 0;
                while let Some((root, devs)) = batch.pop() {
                    steps += 1;
                    let mut ch = Ch::fixed(&devs);
                    let r = f(&mut ch, root);
                    assert!(ch.next == devs.len(), "divergence while replaying a prefix");
                    if let Some((kind, mut input)) = r {
                        l.st.edges += ch.pos as u64 - devs.last().map_or(0, |d| d.0 as u64);
                        if devs.len() == k && sampled.fetch_add(1, Relaxed) == 3 {
                            self.sample(sample_text(name, &format!("choices {:?}", devs), kind, &input));
                        }
                        self.run_casts(l, kind, &mut input, &casts);
                    }
                    if devs.len() < k {
                        let first = devs.last().map_or(0, |d| d.0 + 1);
                        for (i, n) in ch.arity.iter().enumerate().skip(first as usize) {
                            for alt in 1..*n {
                                let mut d = devs.clone();
                                d.push((i as u32, alt));
                                if d.len() == k {
                                    batch.push((root, d));
                                } else {
                                    out.push((root, d));
                                }
                            }
                        }
                    }
                    if steps % 256 == 0 && self.over() {
                        break;
                    }
                }
                let mut g = q.lock().unwrap();
                g.0.extend(out);
                g.1 -= 1;
                cv.notify_all();
            }
        });
    }
}

fn cast_name(name: &str, casts: &[Cast]) -> String {
    if casts.is_empty() {
        name.into()
    } else {
        format!("{}, in {} versions and kinds of class", name, casts.len())
    }
}

fn sample_text(space: &str, how: &str, kind: u8, b: &[u8]) -> String {
    let mut s = format!("{}: {}, kind {}, {} bytes: ", space, how, kind, b.len());
    for x in b.iter().take(160) {
        s.push_str(&format!("{:02x}", x));
    }
    if b.len() > 160 {
        s.push_str("...");
    }
    s
}

/// Choice points of one execution.
pub struct Ch<'a> {
    devs: &'a [(u32, u32)],
    next: usize,
    pos: u32,
    pub arity: Vec<u32>,
    pub log: Vec<u32>,
    /// the list to be made long: its number in order of appearance, and its size
    pub stretch: Option<(usize, usize)>,
    pub lists: usize,
    answers: Vec<u32>,
    open: Vec<(usize, usize)>,
    replay: Option<usize>,
    /// for the list made long: which choice of an element is not the default, by the element's number
    pub vary: Option<&'a (dyn Fn(usize) -> (u32, u32) + Sync)>,
    armed: bool,
    varied: Option<(u32, u32)>,
    /// how many alternatives each choice of each varied element has
    pub seen: Vec<Vec<u32>>,
}
/// What the next list's elements take after.
pub struct Item(bool, bool);
impl<'a> Ch<'a> {
    /// An execution that takes the given deviations and the default everywhere else.
    pub fn fixed(devs: &'a [(u32, u32)]) -> Ch<'a> {
        Ch {
            devs,
            next: 0,
            pos: 0,
            arity: vec![],
            log: vec![],
            stretch: None,
            lists: 0,
            answers: vec![],
            open: vec![],
            replay: None,
            vary: None,
            armed: false,
            varied: None,
            seen: vec![],
        }
    }
    /// One of n alternatives; 0 is the default.
    pub fn pick(&mut self, n: usize) -> usize {
        if let Some(at) = self.replay {
            self.replay = Some(at + 1);
            if let Some((p, alt)) = self.varied {
                if self.seen.len() <= 8 {
                    self.seen.last_mut().unwrap().push(n as u32);
                }
                return if p as usize == at { (alt as usize).min(n - 1) } else { 0 };
            }
            let (_, end) = *self.open.last().unwrap();
            return if at < end { (self.answers[at] as usize).min(n - 1) } else { 0 };
        }
        let mut v = 0;
        if let Some((p, a)) = self.devs.get(self.next) {
            if *p == self.pos {
                v = *a;
                self.next += 1;
                assert!((v as usize) < n, "divergence while replaying a prefix");
            }
        }
        self.pos += 1;
        self.arity.push(n as u32);
        if self.stretch.is_some() {
            self.answers.push(v);
        }
        v as usize
    }
    /// The size of the next list if it is the one to be made long.
    pub fn long(&mut self) -> Option<usize> {
        if self.replay.is_some() {
            return None;
        }
        self.lists += 1;
        let n = self.stretch.and_then(|(k, n)| if k + 1 == self.lists { Some(n) } else { None });
        self.armed |= n.is_some();
        n
    }
    /// Brackets element i of n: in a long list, the elements in the middle repeat the choices made for the first.
    pub fn begin(&mut self, i: usize, n: usize) -> Item {
        if let Some(f) = self.vary {
            if !self.armed || self.replay.is_some() || self.stretch.map(|s| s.1) != Some(n) {
                return Item(false, false);
            }
            self.varied = Some(f(i));
            self.replay = Some(0);
            if self.seen.len() <= 8 {
                self.seen.push(vec![]);
            }
            return Item(true, i + 1 == n);
        }
        if n <= 8 || self.stretch.map(|s| s.1) != Some(n) || self.replay.is_some() {
            return Item(false, false);
        }
        if i == 0 {
            self.open.push((self.answers.len(), usize::MAX));
        }
        if i >= 2 && i + 1 < n {
            self.replay = Some(self.open.last().unwrap().0);
        }
        Item(true, i + 1 == n)
    }
    pub fn end(&mut self, it: Item) {
        if it.0 && self.vary.is_some() {
            self.replay = None;
            self.varied = None;
            self.armed = !it.1;
            return;
        }
        if it.0 {
            self.replay = None;
            let l = self.open.last_mut().unwrap();
            if l.1 == usize::MAX {
                l.1 = self.answers.len();
            }
            if it.1 {
                self.open.pop();
            }
        }
    }
    pub fn of<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.pick(v.len())].clone()
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
}


/// Mixed-radix digits of i, least significant first.
pub fn digits(mut i: u64, radix: &[u64]) -> Vec<usize> {
    radix
        .iter()
        .map(|r| {
            let d = i % r;
            i /= r;
            d as usize
        })
        .collect()
}
pub fn product(radix: &[u64]) -> u64 {
    radix.iter().product()
}
