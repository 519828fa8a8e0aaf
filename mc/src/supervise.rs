//! Running an exploration in a child process, watching it for crashes and hangs, and reporting.
use crate::check;
use crate::engine::*;
use crate::refmodel::{self, Verdict};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Mutex;
use std::time::{Duration, Instant};

const STACK: usize = 1 << 20;
const HANG: Duration = Duration::from_secs(25);
const SINGLE: Duration = Duration::from_secs(60);

fn number(prop: &str) -> Option<u32> {
    prop.strip_prefix('C').and_then(|n| n.parse().ok()).filter(|n| (1..=20).contains(n))
}
fn root() -> PathBuf {
    std::env::var("MC_ROOT").map(PathBuf::from).unwrap_or_else(|_| "/verif".into())
}

pub fn worker(a: &[&str]) -> i32 {
    // worker <prop> <tier> <start> <seconds> <shm> <out>
    let prop = number(a[0]).unwrap();
    check::PROP.store(prop, Relaxed);
    install_hook();
    crate::history::prepare();
    crate::history::BATCHED.store(prop == 20, Relaxed);
    let cx = Ctx {
        shm: Some(Shm::open(a[4])),
        threads: std::thread::available_parallelism().map_or(8, |n| n.get()).clamp(1, SLOTS),
        stack: STACK,
        thorough: a[1] == "thorough",
        survey: std::env::var("MC_SURVEY").is_ok(),
        check: check::check_case,
        again: if prop == 20 { Some(crate::history::again) } else { None },
        deadline: Instant::now() + Duration::from_secs_f64(a[3].parse().unwrap()),
        skip: HashSet::new(),
        stop: false.into(),
        capped: false.into(),
        states: Default::default(),
        saturated: false.into(),
        rules: Default::default(),
        spaces: Default::default(),
        samples: Default::default(),
        violations: Default::default(),
        total: 0.into(),
        max_peak: 0.into(),
        max_ratio: 0.into(),
        index: 0.into(),
        casts: Default::default(),
        start: a[2].parse().unwrap(),
        sink: Some(Mutex::new(std::fs::OpenOptions::new().append(true).create(true).open(a[5]).unwrap())),
    };
    crate::props::explore(&cx, prop);
    cx.emit(&["DONE", &cx.capped.load(Relaxed).to_string()]);
    0
}

/// single <prop> <kind> <file>: prints BAD and a message, or OK.
pub fn single(a: &[&str]) -> i32 {
    check::PROP.store(number(a[0]).unwrap(), Relaxed);
    install_hook();
    crate::history::prepare();
    let kind: u8 = a[1].parse().unwrap();
    let b = std::fs::read(a[2]).unwrap();
    let t = std::thread::Builder::new().stack_size(STACK).spawn(move || {
        let mut sc = Scratch::default();
        check::check_case(kind, &b, &mut sc)
    });
    match t.unwrap().join().unwrap() {
        Res::Ok(c, h) => println!("OK {:?} {:016x}", c, h),
        Res::Bad(m, s) => println!("BAD {} {}", s, m),
    }
    0
}

enum Single {
    Ok,
    Bad(String),
    Crash(String),
    Hang,
}
fn run_single(prop: &str, kind: u8, input: &[u8], tmp: &Path) -> Single {
    let f = tmp.join("single.bin");
    std::fs::write(&f, input).unwrap();
    let out = std::fs::File::create(tmp.join("single.out")).unwrap();
    let err = std::fs::File::create(tmp.join("single.err")).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(["single", prop, &kind.to_string(), f.to_str().unwrap()])
        .stdin(Stdio::null())
        .stdout(out)
        .stderr(err)
        .spawn()
        .unwrap();
    let t0 = Instant::now();
    loop {
        if let Some(s) = c.try_wait().unwrap() {
            let out = std::fs::read_to_string(tmp.join("single.out")).unwrap_or_default();
            let err = String::from_utf8_lossy(&std::fs::read(tmp.join("single.err")).unwrap_or_default()).trim().replace('\n', " ");
            return if s.success() {
                match out.strip_prefix("BAD ") {
                    Some(m) => Single::Bad(m.trim().to_string()),
                    None => Single::Ok,
                }
            } else {
                let how = match s.signal() {
                    Some(n) => format!("ends with signal {}", n),
                    None => format!("ends with status {}", s.code().unwrap_or(-1)),
                };
                Single::Crash(format!("{} ({})", how, err.chars().take(300).collect::<String>()))
            };
        }
        if t0.elapsed() > SINGLE {
            let _ = c.kill();
            let _ = c.wait();
            return Single::Hang;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

#[derive(Default)]
struct Tally {
    spaces: Vec<Vec<String>>,
    rules: BTreeMap<String, u64>,
    samples: Vec<String>,
    states: u64,
    saturated: bool,
    peak: i64,
    ratio: i64,
    violations: Vec<Violation>,
    capped: bool,
    notes: Vec<String>,
    names: HashSet<String>,
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}
/// Adds one worker's report; returns (finished, space it was in).
fn absorb(t: &mut Tally, text: &str) -> (bool, Option<(usize, String)>) {
    let mut done = false;
    let mut at = None;
    let (mut states, mut sat) = (0, false);
    for l in text.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "BEGIN" if f.len() == 3 => at = Some((f[1].parse().unwrap_or(0), f[2].to_string())),
            "SPACE" if f.len() == 11 => {
                at = None;
                t.names.insert(f[2].into());
                t.spaces.push(f[2..].iter().map(|s| s.to_string()).collect());
            }
            "RULE" if f.len() == 3 => *t.rules.entry(f[1].into()).or_insert(0) += f[2].parse().unwrap_or(0),
            "SAMPLE" if f.len() == 2 && t.samples.len() < 40 => t.samples.push(f[1].into()),
            "STATES" if f.len() == 3 => {
                states = f[1].parse().unwrap_or(0);
                sat = f[2] == "true";
            }
            "PEAK" if f.len() == 3 => {
                t.peak = t.peak.max(f[1].parse().unwrap_or(0));
                t.ratio = t.ratio.max(f[2].parse().unwrap_or(0));
            }
            "VIOL" if f.len() == 7 => t.violations.push(Violation {
                kind: f[1].parse().unwrap_or(0),
                input: unhex(f[2]),
                sig: "",
                msg: f[5].into(),
                space: f[4].into(),
                trail: unhex(f[6]),
            }),
            "DONE" => {
                done = true;
                t.capped |= f.get(1) == Some(&"true");
            }
            _ => (),
        }
    }
    t.states += states;
    t.saturated |= sat;
    (done, at)
}

fn wait_child(c: &mut Child, shm: &Shm, limit: Instant) -> Result<std::process::ExitStatus, Option<usize>> {
    let mut seen: Vec<(u64, Instant)> = vec![(u64::MAX, Instant::now()); SLOTS];
    loop {
        if let Some(s) = c.try_wait().unwrap() {
            return Ok(s);
        }
        let now = Instant::now();
        for i in 0..SLOTS {
            let (q, busy) = shm.seq(i);
            if q != seen[i].0 || !busy {
                seen[i] = (q, now);
            } else if now - seen[i].1 > HANG {
                return Err(Some(i));
            }
        }
        if now > limit {
            return Err(None);
        }
        std::thread::sleep(Duration::from_millis(if now.elapsed().as_secs() < 2 { 10 } else { 100 }));
    }
}

pub fn run(prop: &str, tier: &str) -> i32 {
    let Some(num) = number(prop) else {
        eprintln!("unknown property {}", prop);
        return 2;
    };
    // what is varied has to be something that is accepted, or most of the variation says nothing
    for (name, b, _) in crate::spaces::all_seeds().iter().chain(&crate::spaces::whole_seeds()) {
        if !matches!(crate::refmodel::run(b, true, 0, false, vec![]), crate::refmodel::Verdict::Accept { .. }) {
            eprintln!("the model does not accept the seed file '{}'", name);
            return 2;
        }
    }
    let t0 = Instant::now();
    let budget: f64 = std::env::var("MC_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 760.0 } else { 640.0 });
    let end = t0 + Duration::from_secs_f64(budget);
    let tmp = root().join("out").join(format!("tmp-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let mut t = Tally::default();
    let mut start = 0;
    let mut restarts = 0;
    let mut found: Option<Violation> = None;
    loop {
        let shm_path = tmp.join(format!("shm{}", restarts));
        let out_path = tmp.join(format!("out{}", restarts));
        let shm = Shm::open(shm_path.to_str().unwrap());
        let left = end.saturating_duration_since(Instant::now()).as_secs_f64();
        let err = std::fs::File::create(tmp.join("worker.err")).unwrap();
        let mut c = Command::new(std::env::current_exe().unwrap())
            .args(["worker", prop, tier, &start.to_string(), &format!("{}", left), shm_path.to_str().unwrap(), out_path.to_str().unwrap()])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(err)
            .spawn()
            .unwrap();
        let r = wait_child(&mut c, &shm, end + Duration::from_secs(40));
        if r.is_err() {
            let _ = c.kill();
            let _ = c.wait();
        }
        let text = std::fs::read_to_string(&out_path).unwrap_or_default();
        let (done, at) = absorb(&mut t, &text);
        if done {
            break;
        }
        // it did not finish: which case was it?
        let suspects: Vec<(u8, Vec<u8>)> = match &r {
            Err(Some(i)) => shm.get(*i).1.into_iter().collect(),
            Err(None) => vec![],
            Ok(_) => (0..SLOTS).filter_map(|i| shm.get(i).1).collect(),
        };
        let mut guilty = false;
        for (k, input) in suspects {
            let (how, mem) = match run_single(prop, k, &input, &tmp) {
                Single::Ok => continue,
                Single::Bad(m) => {
                    found = Some(Violation { kind: k, input, msg: m, sig: "", trail: vec![], space: String::new() });
                    guilty = true;
                    break;
                }
                Single::Crash(m) => {
                    let mem = m.contains("memory allocation of");
                    (m, mem)
                }
                Single::Hang => (format!("does not end within {} s", SINGLE.as_secs()), false),
            };
            guilty = true;
            let demanded = match num {
                1 => true,
                2 => mem,
                _ => {
                    k <= check::OFF && matches!(refmodel::run(&input, k == check::ON, 0, false, vec![]), Verdict::Accept { .. }) && check::demands(num)
                }
            };
            if demanded {
                found = Some(Violation { kind: k, input, msg: format!("the process {}", how), sig: "", trail: vec![], space: at.as_ref().map_or(String::new(), |a| a.1.clone()) });
                break;
            }
            t.notes.push(format!("an input of {} bytes: {}; left to the properties this concerns", input.len(), how));
        }
        if found.is_some() {
            break;
        }
        if !guilty {
            t.notes.push(format!("a worker ended without a result and no input explains it ({:?})", r.map(|s| s.to_string())));
        }
        restarts += 1;
        let Some((k, name)) = at else {
            t.capped = true;
            break;
        };
        t.notes.push(format!("space '{}' left incomplete", name));
        start = k + 1;
        if restarts > 40 || Instant::now() > end {
            t.capped = true;
            break;
        }
    }
    if std::env::var("MC_SURVEY").is_ok() {
        for v in &t.violations {
            let hex: String = v.input.iter().take(400).map(|b| format!("{:02x}", b)).collect();
            println!("SURVEY {} | {} | kind {} {}", v.space, v.msg, v.kind, hex);
        }
    }
    let mut first = None;
    if found.is_none() {
        t.violations.sort_by_key(|v| v.input.len());
        // a violation counts only if it happens again on its own
        let all = std::mem::take(&mut t.violations);
        // what compares results is right whenever it was seen; what measures memory only if it is seen again
        first = if num == 2 || num == 3 { None } else { all.first().cloned() };
        let mut alone = vec![];
        for v in all {
            if found.is_some() {
                break;
            }
            match run_single(prop, v.kind, &v.input, &tmp) {
                Single::Bad(m) => found = Some(Violation { msg: m, ..v }),
                Single::Crash(m) => found = Some(Violation { msg: m, ..v }),
                _ => alone.push(v),
            }
        }
        for v in alone {
            if found.is_none() && !v.trail.is_empty() {
                if let Single::Bad(m) | Single::Crash(m) = run_single(prop, check::TRAIL, &v.trail, &tmp) {
                    found = Some(Violation { msg: format!("after other parses, not alone: {}", m), kind: check::TRAIL, input: v.trail, trail: vec![], ..v });
                    continue;
                }
            }
            t.notes.push(format!("not reproducible alone: {}", v.msg));
        }
    }
    // seen after longer histories
    if found.is_none() && first.is_some() {
        found = first.map(|v| Violation { msg: format!("after other parses, not alone: {}", v.msg), ..v });
    }
    let mut code = 0;
    let mut known = 0;
    if let Some(v) = &found {
        if is_known(prop, v) {
            known = 1;
            println!("KNOWN-FINDING: property={} {}", prop, v.msg);
        } else {
            let path = root().join("out").join(format!("{}-{:016x}.replay", prop, fnv(&v.input)));
            let hex: String = v.input.iter().map(|b| format!("{:02x}", b)).collect();
            std::fs::write(&path, format!("property {}\nkind {}\nspace {}\nwhat {}\ninput {}\n", prop, v.kind, v.space, v.msg, hex)).unwrap();
            println!("{}", v.msg.chars().map(|c| if c.is_control() { '?' } else { c }).collect::<String>());
            println!("VIOLATION property={} replay={}", prop, path.display());
            code = 1;
        }
    }
    report(prop, tier, &t, (found.is_some() && known == 0) as u32, t0.elapsed().as_secs_f64(), restarts);
    let _ = std::fs::remove_dir_all(&tmp);
    code
}

/// Findings that were recorded rather than repaired are named by the hash of their input.
fn is_known(prop: &str, v: &Violation) -> bool {
    let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    let id = format!("{:016x}", fnv(&v.input));
    text.lines().any(|l| l.starts_with("known:") && l.contains(&format!("property={} ", prop)) && l.contains(&format!("input={}", id)))
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn report(prop: &str, tier: &str, t: &Tally, violations: u32, wall: f64, restarts: usize) {
    let sum = |i: usize| t.spaces.iter().map(|s| s[i].parse::<u64>().unwrap_or(0)).sum::<u64>();
    let incomplete: Vec<&str> = t.spaces.iter().filter(|s| s[7] != "true").map(|s| s[0].as_str()).collect();
    let mut o = String::new();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
    o.push_str(&format!("{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n", js(prop), js(tier), seed));
    o.push_str(&format!("  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n", t.states, sum(3), sum(2)));
    o.push_str(&format!("  \"exhaustive\": {},\n", incomplete.is_empty() && !t.capped && t.notes.is_empty() && violations == 0));
    o.push_str(&format!("  \"what_is_counted\": {},\n", js("states: distinct outcomes (accepted contents or rejection rules) the model or implementation reached; transitions: choices taken by the generators (edges of the choice trees, cases of the sweeps); traces: inputs executed on the real code and compared")));
    o.push_str(&format!("  \"model_accepts\": {},\n  \"model_rejects\": {},\n  \"model_leaves_open\": {},\n", sum(4), sum(5), sum(6)));
    o.push_str(&format!("  \"states_saturated\": {},\n  \"restarts\": {},\n", t.saturated, restarts));
    if prop == "C02" {
        o.push_str(&format!("  \"max_heap_bytes\": {},\n  \"max_heap_per_input_byte\": {},\n", t.peak, t.ratio));
    }
    o.push_str("  \"spaces\": [\n");
    for (i, s) in t.spaces.iter().enumerate() {
        o.push_str(&format!(
            "   {{\"name\": {}, \"what\": {}, \"cases\": {}, \"transitions\": {}, \"accepted\": {}, \"rejected\": {}, \"open\": {}, \"complete\": {}, \"wall_s\": {}}}{}\n",
            js(&s[0]), js(&s[1]), s[2], s[3], s[4], s[5], s[6], s[7], s[8],
            if i + 1 < t.spaces.len() { "," } else { "" }
        ));
    }
    o.push_str("  ],\n  \"rejection_rules_reached\": {\n");
    let n = t.rules.len();
    for (i, (k, v)) in t.rules.iter().enumerate() {
        o.push_str(&format!("   {}: {}{}\n", js(k), v, if i + 1 < n { "," } else { "" }));
    }
    o.push_str("  },\n");
    let list = |v: &[String]| v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",\n   ");
    o.push_str(&format!("  \"samples\": [\n   {}\n  ],\n", list(&t.samples)));
    o.push_str(&format!("  \"notes\": [{}]\n }},\n", list(&t.notes)));
    let assume = [
        "the reference model (mc/src/refmodel.rs) states the property; it is validated against the implementation on every trace and on real class files",
        "bounds: the listed spaces; outside them nothing is claimed",
        "checked build: optimised, with overflow checks and debug assertions, worker threads with 1 MiB of stack",
    ];
    o.push_str(&format!(" \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", assume.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "), wall, violations));
    let dir = root().join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    let mut f = std::fs::File::create(dir.join(format!("{}.json", prop))).unwrap();
    f.write_all(o.as_bytes()).unwrap();
    println!(
        "{} {}: {} spaces, {} traces, {} states, {:.1} s{}{}",
        prop, tier, t.spaces.len(), sum(2), t.states, wall,
        if incomplete.is_empty() { String::new() } else { format!(", incomplete: {:?}", incomplete) },
        if t.notes.is_empty() { String::new() } else { format!(", notes: {:?}", t.notes) }
    );
    if std::env::var("MC_TIMES").is_ok() {
        for s in &t.spaces {
            println!("   {:>8} s {:>10} cases {:>10} acc {:>10} rej {:>8} open  {}", s[8], s[2], s[4], s[5], s[6], s[0]);
        }
        println!("   peak {} ratio {}", t.peak, t.ratio);
    }
}

pub fn replay(path: &str) -> i32 {
    let text = std::fs::read_to_string(path).unwrap();
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let (prop, kind, input) = (get("property "), get("kind ").parse().unwrap_or(0), unhex(&get("input ")));
    let tmp = root().join("out").join(format!("tmp-replay-{}", std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let r = run_single(&prop, kind, &input, &tmp);
    let _ = std::fs::remove_dir_all(&tmp);
    match r {
        Single::Ok => {
            println!("holds");
            0
        }
        Single::Bad(m) | Single::Crash(m) => {
            println!("{}", m);
            1
        }
        Single::Hang => {
            println!("does not end");
            1
        }
    }
}

/// Compares model and implementation on real class files (development aid).
pub fn conform(paths: &[&str]) -> i32 {
    install_hook();
    let mut files = vec![];
    fn walk(p: &Path, v: &mut Vec<PathBuf>) {
        if p.is_dir() {
            for e in std::fs::read_dir(p).unwrap() {
                walk(&e.unwrap().path(), v);
            }
        } else if p.extension().map_or(false, |e| e == "class" || e == "clazz") {
            v.push(p.to_path_buf());
        }
    }
    for p in paths {
        walk(Path::new(p), &mut files);
    }
    let mut bad = 0;
    let (mut acc, mut rej, mut open) = (0, 0, 0);
    for f in &files {
        let b = std::fs::read(f).unwrap();
        match refmodel::run(&b, true, crate::dump::ALL | crate::dump::PRINT, true, vec![]) {
            Verdict::Accept { .. } => acc += 1,
            Verdict::Reject(r, _) => {
                rej += 1;
                println!("{}: model rejects: {}", f.display(), r.what);
            }
            Verdict::Unspec(_) => open += 1,
        }
        for p in 1..=20u32 {
            if p == 20 {
                continue;
            }
            check::PROP.store(p, Relaxed);
            let mut sc = Scratch::default();
            if let Res::Bad(m, _) = check::check_case(check::ON, &b, &mut sc) {
                println!("{}: C{:02}: {}", f.display(), p, m);
                bad += 1;
                break;
            }
        }
    }
    println!("{} files: model accepts {}, rejects {}, open {}; {} disagreements", files.len(), acc, rej, open, bad);
    (bad > 0) as i32
}
