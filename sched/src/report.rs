//! The evidence file and the violation line.
use crate::explore::{Found, Task};
use crate::scenario::Scenario;
use std::fmt::Write;
use std::path::PathBuf;
use std::time::Instant;

pub struct Violation {
    pub scenario: usize,
    pub dev: Vec<(u32, u32)>,
    pub what: String,
    pub alone: bool,
}
#[derive(Clone, Default)]
struct Row {
    executions: u64,
    events: u64,
    switches: u64,
    decisions: u64,
    longest: u64,
    bound: Option<u32>,
    incomplete: u32,
    sample: Option<(Vec<(u32, u32)>, u64)>,
}
pub struct Report {
    tier: String,
    rows: Vec<Row>,
    pub violation: Option<Violation>,
    pub shared: Vec<u64>,
    pub notes: Vec<String>,
    pub capped: bool,
    pub states: u64,
    pub shared_addresses: u64,
}
fn root() -> PathBuf {
    std::env::var_os("MC_ROOT").map(PathBuf::from).unwrap_or_else(|| std::env::current_dir().unwrap())
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(d: &[(u32, u32)]) -> String {
    d.iter().map(|(a, b)| format!("{}:{}", a, b)).collect::<Vec<_>>().join(" ")
}

impl Report {
    pub fn new(tier: &str, scs: &[Scenario]) -> Report {
        Report {
            tier: tier.into(),
            rows: vec![Row::default(); scs.len()],
            violation: None,
            shared: vec![],
            notes: vec![],
            capped: false,
            states: 0,
            shared_addresses: 0,
        }
    }
    /// `last`: this round knew every shared address, so that its bound is settled if it was complete.
    pub fn add(&mut self, t: &Task, f: &Found, bound: u32, last: bool) {
        let r = &mut self.rows[t.scenario];
        r.executions += f.executions;
        r.events += f.events;
        r.switches += f.switches;
        r.decisions += f.decisions;
        r.longest = r.longest.max(f.longest);
        if f.done == 0 || f.incomplete != 0 {
            r.incomplete |= 1 << f.incomplete;
        } else if last && r.incomplete == 0 {
            r.bound = Some(bound);
        }
        if f.sample_n > 0 || r.sample.is_none() {
            r.sample = Some((f.sample[..f.sample_n as usize].to_vec(), f.sample_events));
        }
    }
    pub fn finish(&mut self, scs: &[Scenario], t0: Instant) -> i32 {
        let wall = t0.elapsed().as_secs_f64();
        let mut code = 0;
        if let Some(v) = &self.violation {
            let name = scs[v.scenario].name();
            let text = format!(
                "scenario {}\ndeviations {}\nshared {}\nalone {}\nwhat {}\n",
                name,
                list(&v.dev),
                self.shared.iter().map(|a| rt::to_name(*a)).collect::<Vec<_>>().join(" "),
                v.alone,
                v.what
            );
            let path = root().join("out").join("C21.replay");
            let _ = std::fs::create_dir_all(root().join("out"));
            std::fs::write(&path, text).unwrap();
            println!("{}: {}", name, v.what);
            println!("VIOLATION property=C21 replay={}", path.display());
            code = 1;
        }
        let sum = |f: fn(&Row) -> u64| self.rows.iter().map(f).sum::<u64>();
        let exec = sum(|r| r.executions);
        let short: Vec<usize> = (0..scs.len()).filter(|i| self.rows[*i].bound != Some(scs[*i].bound)).collect();
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\n \"property\": \"C21\",\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n",
            js(&self.tier), seed, self.states, sum(|r| r.events), exec
        );
        let _ = write!(
            o,
            "  \"exhaustive\": {},\n  \"what_is_counted\": {},\n  \"schedules\": {},\n  \"decisions\": {},\n  \"context_switches\": {},\n  \"shared_addresses_branched_on\": {},\n  \"longest_execution_events\": {},\n  \"scenarios\": {},\n  \"scenarios_by_completed_preemption_bound\": {{",
            short.is_empty() && self.notes.is_empty() && self.violation.is_none(),
            js("states: distinct scheduler states (each thread's progress and the values its atomic operations returned) at decision points; transitions: atomic operations and futex calls executed under the controlled scheduler; traces: schedules executed on the real code"),
            exec, sum(|r| r.decisions), sum(|r| r.switches), self.shared_addresses,
            self.rows.iter().map(|r| r.longest).max().unwrap_or(0), scs.len()
        );
        let mut first = true;
        for b in 0..8 {
            let n = self.rows.iter().filter(|r| r.bound == Some(b)).count();
            if n > 0 {
                let _ = write!(o, "{}\"{}\": {}", if first { "" } else { ", " }, b, n);
                first = false;
            }
        }
        o.push_str("},\n  \"below_their_bound\": [");
        let v: Vec<String> = short.iter().take(40).map(|i| js(&format!("{} (completed {:?} of {})", scs[*i].name(), self.rows[*i].bound, scs[*i].bound))).collect();
        o.push_str(&v.join(", "));
        o.push_str("],\n  \"largest\": [\n");
        let mut by: Vec<usize> = (0..scs.len()).collect();
        by.sort_by_key(|i| std::cmp::Reverse(self.rows[*i].executions));
        let v: Vec<String> = by
            .iter()
            .take(25)
            .map(|i| format!("   {{\"scenario\": {}, \"schedules\": {}, \"events\": {}, \"bound\": {}}}", js(&scs[*i].name()), self.rows[*i].executions, self.rows[*i].events, scs[*i].bound))
            .collect();
        o.push_str(&v.join(",\n"));
        o.push_str("\n  ],\n  \"samples\": [\n");
        let v: Vec<String> = by
            .iter()
            .step_by(1 + by.len() / 12)
            .filter_map(|i| self.rows[*i].sample.as_ref().map(|s| (i, s)))
            .map(|(i, s)| format!("   {}", js(&format!("{}: at decision:option [{}], {} events", scs[*i].name(), list(&s.0), s.1))))
            .collect();
        o.push_str(&v.join(",\n"));
        let _ = write!(o, "\n  ],\n  \"notes\": [{}]\n }},\n", self.notes.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
        let assume = [
            "sequentially consistent atomics",
            "the crate forbids unsafe code, so that threads interact only through atomic operations and locks, all of which are schedule points",
            "the inside of the standard library's contended lock paths runs between two schedule points",
            "bounds: the listed scenarios and preemption bounds",
        ];
        let _ = write!(
            o,
            " \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            assume.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "), wall, code
        );
        let _ = std::fs::create_dir_all(root().join("evidence"));
        std::fs::write(root().join("evidence/C21.json"), o).unwrap();
        println!(
            "C21 {}: {} scenarios, {} schedules, {} states, {} events, {:.1} s{}{}",
            self.tier, scs.len(), exec, self.states, sum(|r| r.events), wall,
            if short.is_empty() { String::new() } else { format!(", {} below their bound", short.len()) },
            if self.notes.is_empty() { String::new() } else { format!(", notes: {:?}", self.notes) }
        );
        if std::env::var("MC_TIMES").is_ok() {
            for i in by.iter().take(60) {
                println!("   {:>9} schedules {:>7} longest, bound {:?}/{}  {}", self.rows[*i].executions, self.rows[*i].longest, self.rows[*i].bound, scs[*i].bound, scs[*i].name());
            }
        }
        code
    }
}

/// Scenario, deviations and shared addresses of a replay file.
pub fn read(path: &str) -> (String, Vec<(u32, u32)>, Vec<u64>) {
    let t = std::fs::read_to_string(path).unwrap();
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let dev = get("deviations ").split_whitespace().filter_map(|p| p.split_once(':')).map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())).collect();
    let shared = get("shared ").split_whitespace().filter_map(rt::from_name).collect();
    (get("scenario "), dev, shared)
}
