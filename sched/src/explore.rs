//! The explorer: every execution is a process of its own, forked from a worker with a single thread.
use crate::files;
use crate::report::{self, Report, Violation};
use crate::scenario::{self, Scenario};
use rt::{Shm, MAXT, MAX_DEV, REGIONS_SIZE};
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::time::{Duration, Instant};

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn _exit(code: i32) -> !;
    fn sched_setaffinity(pid: i32, n: usize, mask: *const u64) -> i32;
    fn sched_getaffinity(pid: i32, n: usize, mask: *mut u64) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
}
/// Zeroed memory; `shared` with forked processes.
fn map(n: usize, shared: bool) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), n, 3, 0x20 | 0x4000 | if shared { 1 } else { 2 }, -1, 0) };
    assert!(p as isize != -1, "mmap");
    p
}

pub const NEW: usize = 512;
/// What a task found.
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Found {
    pub done: u32,
    pub incomplete: u32,
    pub executions: u64,
    pub events: u64,
    pub switches: u64,
    pub decisions: u64,
    pub longest: u64,
    pub n_new: u32,
    pub new: [u64; NEW],
    pub bad: u32,
    pub n_dev: u32,
    pub dev: [(u32, u32); MAX_DEV],
    /// a schedule, as a sample
    pub sample_n: u32,
    pub sample: [(u32, u32); MAX_DEV],
    pub sample_events: u64,
}
#[repr(C)]
struct Board {
    next: AtomicUsize,
    stop: AtomicUsize,
    tasks: [Found; MAX_TASKS],
}
const MAX_TASKS: usize = 1 << 16;
const STATES: usize = 1 << 25;

pub struct Task {
    pub scenario: usize,
    pub shard: usize,
    pub shards: usize,
}

#[derive(Clone, Copy, PartialEq, Default, Debug)]
pub struct Seen {
    pub hash: u64,
    pub len: u64,
    pub panicked: bool,
}
pub type Baseline = Vec<Vec<Seen>>;

/// How an execution ended.
#[derive(Clone, PartialEq, Debug)]
pub enum End {
    Done,
    Deadlock(u32),
    Endless,
    TooBig,
    Diverged,
    Killed(i32),
}

fn body(id: usize, ops: Vec<scenario::Op>, mut w: scenario::World) {
    let s = rt::shm();
    rt::enter(id as u32);
    for (j, op) in ops.iter().enumerate() {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| scenario::perform(*op, &mut w)));
        let (text, panicked) = match r {
            Ok(t) => (t, false),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                (format!("panic: {}", m), true)
            }
        };
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for b in text.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        s.obs[id][j] = rt::Obs { hash: h, len: text.len() as u64, panicked: panicked as u32, op: j as u32 };
        s.n_obs[id] = j as u32 + 1;
        if s.want == (id as u32, j as u32) {
            let n = text.len().min(rt::MAX_TEXT);
            s.text[..n].copy_from_slice(&text.as_bytes()[..n]);
            s.text_len = n as u32;
        }
    }
    drop(w);
    rt::leave();
    rt::sleep_forever();
}

fn child(sc: &Scenario, only: Option<usize>, limit: u32) -> ! {
    unsafe { alarm(limit) };
    std::panic::set_hook(Box::new(|_| ()));
    rt::enter_setup();
    let w = scenario::world(sc);
    let ids: Vec<usize> = (0..sc.threads.len()).filter(|i| only.map_or(true, |o| o == *i)).collect();
    let mut parts: Vec<(usize, Vec<scenario::Op>, scenario::World)> = vec![];
    for i in &ids {
        parts.push((*i, sc.threads[*i].clone(), w.clone()));
    }
    drop(w);
    rt::leave_setup();
    rt::expect(ids.len() as u32);
    for (i, ops, w) in parts {
        std::thread::Builder::new().stack_size(2 << 20).spawn(move || body(i, ops, w)).expect("thread");
    }
    rt::run_all();
    rt::finish_execution()
}

/// Runs one execution following the deviations.
pub fn execute(sc: &Scenario, only: Option<usize>, dev: &[(u32, u32)], want: (u32, u32)) -> End {
    let s = rt::shm();
    s.reset();
    s.n_dev = dev.len() as u32;
    s.dev[..dev.len()].copy_from_slice(dev);
    s.want = want;
    let pid = unsafe { fork() };
    if pid == 0 {
        child(sc, only, 20);
    }
    assert!(pid > 0, "fork");
    let mut st = 0;
    unsafe { waitpid(pid, &mut st, 0) };
    if st & 0x7f != 0 {
        return End::Killed(st & 0x7f);
    }
    match s.status {
        rt::DONE => End::Done,
        rt::DEADLOCK => End::Deadlock(s.blocked),
        rt::ENDLESS => End::Endless,
        rt::TOO_BIG => End::TooBig,
        rt::DIVERGED => End::Diverged,
        _ => End::Killed(0),
    }
}
pub fn seen(i: usize) -> Vec<Seen> {
    let s = rt::shm();
    s.obs[i][..s.n_obs[i] as usize].iter().map(|o| Seen { hash: o.hash, len: o.len, panicked: o.panicked != 0 }).collect()
}
pub fn text() -> String {
    let s = rt::shm();
    String::from_utf8_lossy(&s.text[..s.text_len as usize]).into_owned()
}

/// What is wrong with the execution that just ended, if anything.
pub fn judge(sc: &Scenario, end: &End, base: &Baseline) -> Option<String> {
    match end {
        End::Done => (),
        End::Deadlock(m) => {
            let who: Vec<String> = (0..MAXT).filter(|i| m & 1 << i != 0).map(|i| (i + 1).to_string()).collect();
            return Some(format!("deadlock: thread {} blocked for good", who.join(" and ")));
        }
        End::Endless => return Some("the threads never finish".into()),
        End::Killed(14) => return Some("the execution does not end".into()),
        End::Killed(n) => return Some(format!("the process is killed by signal {}", n)),
        End::TooBig | End::Diverged => return None,
    }
    for i in 0..sc.threads.len() {
        let got = seen(i);
        for (j, g) in got.iter().enumerate() {
            if g.panicked {
                return Some(format!("thread {} panics in operation {}", i + 1, j + 1));
            }
            if base[i].get(j) != Some(g) {
                return Some(format!("thread {} observes something else than alone in operation {}", i + 1, j + 1));
            }
        }
        if got.len() != sc.threads[i].len() {
            return Some(format!("thread {} did not finish", i + 1));
        }
    }
    None
}

struct States(&'static [AtomicU64], &'static AtomicU64);
impl States {
    fn add(&self, h: u64) {
        if self.1.load(Relaxed) > STATES as u64 * 3 / 4 {
            return;
        }
        let h = h.max(1);
        let mut i = (h >> 20) as usize % STATES;
        loop {
            match self.0[i].compare_exchange(0, h, Relaxed, Relaxed) {
                Ok(_) => {
                    self.1.fetch_add(1, Relaxed);
                    return;
                }
                Err(x) if x == h => return,
                Err(_) => i = (i + 1) % STATES,
            }
        }
    }
}

/// All schedules of a scenario with at most `bound` preemptions (or one shard of them).
fn explore(sc: &Scenario, salt: u64, t: &Task, bound: u32, base: &Baseline, f: &mut Found, states: &States, stop: &AtomicUsize, limit: Instant) {
    let mut stack: Vec<(Vec<(u32, u32)>, u32)> = vec![(vec![], 0)];
    let mut branch = 0usize;
    while let Some((dev, cost)) = stack.pop() {
        if stop.load(Relaxed) != 0 || Instant::now() > limit {
            f.incomplete = 1;
            return;
        }
        let mut end = execute(sc, None, &dev, (99, 0));
        if end == End::Killed(14) {
            // the machine may have been slow: once more, alone
            end = execute(sc, None, &dev, (99, 0));
        }
        let s = rt::shm();
        let root = dev.is_empty();
        if !root || t.shard == 0 {
            f.executions += 1;
            f.events += s.events;
            f.switches += s.switches;
        }
        f.longest = f.longest.max(s.events);
        for a in &s.new[..s.n_new as usize] {
            if !f.new[..f.n_new as usize].contains(a) {
                if f.n_new as usize == NEW {
                    break; // the next round goes on from these
                }
                f.new[f.n_new as usize] = *a;
                f.n_new += 1;
            }
        }
        if judge(sc, &end, base).is_some() {
            f.bad = 1;
            f.n_dev = dev.len() as u32;
            f.dev[..dev.len()].copy_from_slice(&dev);
            f.done = 1;
            return;
        }
        if matches!(end, End::TooBig | End::Diverged) {
            f.incomplete = 2 + (end == End::Diverged) as u32;
            continue;
        }
        if dev.len() >= f.sample_n as usize && (f.sample_n == 0 || f.executions < 100) {
            f.sample_n = dev.len() as u32;
            f.sample[..dev.len()].copy_from_slice(&dev);
            f.sample_events = s.events;
        }
        let from = dev.last().map_or(0, |d| d.0 + 1);
        f.decisions += s.n_dec.saturating_sub(from) as u64;
        for ix in from..s.n_dec {
            let d = s.dec[ix as usize];
            states.add(d.state ^ salt);
            for opt in 1..d.options as u32 {
                let c = cost + (d.free == 0) as u32;
                if c > bound {
                    continue;
                }
                if root && t.shards > 1 {
                    branch += 1;
                    if branch % t.shards != t.shard {
                        continue;
                    }
                }
                if dev.len() + 1 >= MAX_DEV {
                    f.incomplete = 4;
                    continue;
                }
                let mut n = Vec::with_capacity(dev.len() + 1);
                n.extend_from_slice(&dev);
                n.push((ix, opt));
                stack.push((n, c));
            }
        }
    }
    f.done = 1;
}

fn cpus() -> Vec<usize> {
    let mut m = [0u64; 16];
    unsafe { sched_getaffinity(0, 128, m.as_mut_ptr()) };
    (0..1024).filter(|i| m[i / 64] >> (i % 64) & 1 == 1).collect()
}
fn pin(cpu: usize) {
    let mut m = [0u64; 16];
    m[cpu / 64] |= 1 << (cpu % 64);
    unsafe { sched_setaffinity(0, 128, m.as_ptr()) };
}

pub fn prepare() {
    assert!(rt::link() != 0);
    rt::set_regions(map(REGIONS_SIZE, false) as usize);
    rt::set_shm(map(std::mem::size_of::<Shm>(), true) as *mut Shm);
    let out = map(4096, true) as *mut [u32; 2];
    unsafe {
        let pid = fork();
        if pid == 0 {
            alarm(20);
            std::panic::set_hook(Box::new(|_| ()));
            // any thread may have a small stack: nesting is probed with the one the others have
            let r = std::thread::Builder::new().stack_size(2 << 20).spawn(files::depths).unwrap().join();
            *out = r.unwrap_or([60, 15]);
            _exit(0);
        }
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        let d = *out;
        files::prepare(if d[0] == 0 { [60, 15] } else { d });
    }
}

/// One round: all tasks by all workers. Returns what each found.
fn round(scs: &[Scenario], shared: &[Vec<u64>], bases: &[Baseline], tasks: &[Task], bound: u32, states: &States, limit: Instant) -> Vec<Found> {
    let board = unsafe { &mut *(map(std::mem::size_of::<Board>(), true) as *mut Board) };
    let mut pids = vec![];
    for cpu in cpus() {
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe { prctl(1, 9, 0, 0, 0) };
            pin(cpu);
            rt::set_shm(map(std::mem::size_of::<Shm>(), true) as *mut Shm);
            loop {
                let i = board.next.fetch_add(1, Relaxed);
                if i >= tasks.len() || board.stop.load(Relaxed) != 0 {
                    break;
                }
                let t = &tasks[i];
                rt::set_shared(&shared[t.scenario]);
                let f = &mut board.tasks[i];
                let salt = (t.scenario as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
                explore(&scs[t.scenario], salt, t, bound, &bases[t.scenario], f, states, &board.stop, limit);
                if f.bad != 0 {
                    board.stop.store(1, Relaxed);
                }
            }
            unsafe { _exit(0) };
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        unsafe { waitpid(p, &mut st, 0) };
    }
    board.tasks[..tasks.len()].to_vec()
}

/// What each thread observes alone; a message if that already breaks the property.
fn baseline(sc: &Scenario) -> Result<Baseline, (usize, String)> {
    let mut v = vec![];
    for i in 0..sc.threads.len() {
        let mut end = execute(sc, Some(i), &[], (99, 0));
        if end == End::Killed(14) {
            end = execute(sc, Some(i), &[], (99, 0));
        }
        match end {
            End::Done => v.push(seen(i)),
            e => {
                let none = vec![vec![]; sc.threads.len()];
                return Err((i, format!("alone, thread {}: {}", i + 1, judge(sc, &e, &none).unwrap_or(format!("{:?}", e)))));
            }
        }
        if let Some(j) = v[i].iter().position(|o| o.panicked) {
            return Err((i, format!("alone, thread {} panics in operation {}", i + 1, j + 1)));
        }
    }
    Ok(v)
}

/// Runs the schedule again and says what differs.
pub fn explain(sc: &Scenario, base: &Baseline, dev: &[(u32, u32)]) -> Option<String> {
    let end = execute(sc, None, dev, (99, 0));
    let what = judge(sc, &end, base)?;
    if end != End::Done {
        return Some(what);
    }
    for i in 0..sc.threads.len() {
        for (j, g) in seen(i).iter().enumerate() {
            if base[i].get(j) != Some(g) {
                execute(sc, None, dev, (i as u32, j as u32));
                let got = text();
                execute(sc, Some(i), &[], (i as u32, j as u32));
                let alone = text();
                let at = got.bytes().zip(alone.bytes()).position(|(a, b)| a != b).unwrap_or(got.len().min(alone.len()));
                let cut = |s: &str| {
                    let b = s.as_bytes();
                    let from = at.saturating_sub(40).min(b.len());
                    String::from_utf8_lossy(&b[from..b.len().min(at + 80)]).into_owned()
                };
                return Some(format!("{}: '{}' instead of '{}'", what, cut(&got), cut(&alone)));
            }
        }
    }
    Some(what)
}

pub fn run(tier: &str) -> i32 {
    let t0 = Instant::now();
    let budget: f64 = std::env::var("MC_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 740.0 } else { 300.0 });
    let limit = t0 + Duration::from_secs_f64(budget);
    prepare();
    let thorough = tier == "thorough";
    let scs = scenario::all(thorough);
    let mut rep = Report::new(tier, &scs);
    let all = cpus();
    pin(all[0]);
    let mut bases = vec![];
    for (i, sc) in scs.iter().enumerate() {
        match baseline(sc) {
            Ok(b) => bases.push(b),
            Err((_, m)) => {
                // a fault of a thread on its own
                rep.violation = Some(Violation { scenario: i, dev: vec![], what: m, alone: true });
                return rep.finish(&scs, t0);
            }
        }
    }
    let mut m = [0u64; 16];
    for c in &all {
        m[c / 64] |= 1 << (c % 64);
    }
    unsafe { sched_setaffinity(0, 128, m.as_ptr()) };
    let counts: &'static AtomicU64 = unsafe { &*(map(4096, true) as *const AtomicU64) };
    let table: &'static [AtomicU64] = unsafe { std::slice::from_raw_parts(map(STATES * 8, true) as *const AtomicU64, STATES) };
    let states = States(table, counts);
    let mut shared: Vec<BTreeSet<u64>> = vec![BTreeSet::new(); scs.len()];
    let top = scs.iter().map(|s| s.bound).max().unwrap_or(0);
    'levels: for bound in 0..=top {
        let mut open: Vec<usize> = (0..scs.len()).filter(|i| scs[*i].bound >= bound).collect();
        while !open.is_empty() {
            let shards = if bound < 2 { 1 } else { 8 };
            let lists: Vec<Vec<u64>> = shared.iter().map(|s| s.iter().copied().collect()).collect();
            // where nothing is shared there is nothing more to find
            let n = |i: usize| if lists[i].is_empty() { 1 } else { shards };
            let mut tasks: Vec<Task> = open.iter().flat_map(|i| (0..n(*i)).map(|s| Task { scenario: *i, shard: s, shards: n(*i) }).collect::<Vec<_>>()).collect();
            tasks.truncate(MAX_TASKS);
            let found = round(&scs, &lists, &bases, &tasks, bound, &states, limit);
            let mut again = BTreeSet::new();
            for (t, f) in tasks.iter().zip(&found) {
                if f.bad != 0 && rep.violation.is_none() {
                    rt::set_shared(&lists[t.scenario]);
                    let dev = f.dev[..f.n_dev as usize].to_vec();
                    match explain(&scs[t.scenario], &bases[t.scenario], &dev) {
                        Some(what) => {
                            rep.shared = lists[t.scenario].clone();
                            rep.violation = Some(Violation { scenario: t.scenario, dev, what, alone: false });
                        }
                        None => rep.notes.push(format!("not reproducible, not counted: {} with {:?}", scs[t.scenario].name(), dev)),
                    }
                }
                for a in &f.new[..f.n_new as usize] {
                    shared[t.scenario].insert(*a);
                    again.insert(t.scenario);
                }
            }
            for (t, f) in tasks.iter().zip(&found) {
                rep.add(t, f, bound, !again.contains(&t.scenario));
            }
            if rep.violation.is_some() {
                break 'levels;
            }
            open = again.into_iter().collect();
            if Instant::now() > limit {
                rep.capped = true;
                break 'levels;
            }
        }
    }
    rep.shared_addresses = shared.iter().map(|s| s.len() as u64).sum();
    rep.states = counts.load(Relaxed);
    let _ = unsafe { kill(0, 0) };
    rep.finish(&scs, t0)
}

pub fn replay(path: &str) -> i32 {
    prepare();
    pin(cpus()[0]);
    let v = report::read(path);
    let Some(sc) = scenario::all(true).into_iter().chain(scenario::all(false)).find(|s| s.name() == v.0) else {
        println!("no such scenario: {}", v.0);
        return 2;
    };
    match baseline(&sc) {
        Err((_, m)) => {
            println!("{}", m);
            1
        }
        Ok(base) => {
            rt::set_shared(&v.2);
            match explain(&sc, &base, &v.1) {
                Some(m) => {
                    println!("{}", m);
                    1
                }
                None => {
                    println!("holds");
                    0
                }
            }
        }
    }
}
