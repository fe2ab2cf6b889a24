//! Runs the exploration that decides a property, writes evidence, and reports violations.
use crate::cfgs::*;
use crate::plan::*;
use crate::sc::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Clone, Debug)]
pub struct Found {
    pub unit: String,
    pub scen: String,
    pub why: String,
    pub msg: String,
    pub trace: Vec<String>,
    pub describe: Vec<String>,
}
#[derive(Default)]
pub struct Tally {
    pub scenarios: u64,
    pub states: u64,
    pub transitions: u64,
    pub finals: u64,
    pub impl_traces: u64,
    pub per: BTreeMap<String, (u64, u64, u64)>,
    pub inconclusive: BTreeMap<String, (u64, String)>,
    pub skipped: u64,
    pub found: Vec<Found>,
    pub samples: Vec<String>,
    pub biggest: (u64, String),
    pub notes: Vec<String>,
    pub extra: BTreeMap<String, u64>,
    /// sequences validated, for each real machine
    pub machines: BTreeMap<String, u64>,
}
impl Tally {
    pub fn merge_outcome(&mut self, unit: &str, s: &Scen, o: Outcome) {
        self.scenarios += 1;
        self.states += o.states;
        self.transitions += o.transitions;
        self.finals += o.final_states;
        let p = self.per.entry(unit.into()).or_default();
        p.0 += 1;
        p.1 += o.states;
        p.2 += o.transitions;
        if o.states > self.biggest.0 {
            self.biggest = (o.states, format!("{unit}: {}", s.name));
        }
        if let Some(v) = o.violation {
            self.found.push(Found { unit: unit.into(), scen: s.name.clone(), why: v.why, msg: v.msg, trace: v.trace, describe: s.threads.iter().map(|t| describe(t)).collect() });
        }
        if let Some(m) = o.inconclusive {
            let e = self.inconclusive.entry(m).or_insert((0, format!("{unit}: {}", s.name)));
            e.0 += 1;
        }
    }
}

pub struct Args {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub only: Option<(String, String)>,
}

/// Explores all scenarios of all units on all cores.
pub fn run_units(loaded: &[Loaded], units: &[Unit], a: &Args, deadline: Instant, tally: &Mutex<Tally>) {
    const CHUNK: usize = 48;
    let mut jobs: Vec<(usize, usize, usize)> = vec![];
    for (u, x) in units.iter().enumerate() {
        let mut i = 0;
        while i < x.scens.len() {
            let j = (i + CHUNK).min(x.scens.len());
            jobs.push((u, i, j));
            i = j;
        }
    }
    // interleave the units, so that a time limit cuts none of them off completely
    jobs.sort_by_key(|j| (j.1, j.0));
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let times: Option<Mutex<BTreeMap<String, f64>>> = std::env::var_os("PAMC_TIMES").map(|_| Default::default());
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let k = next.fetch_add(1, SeqCst);
                if k >= jobs.len() {
                    break;
                }
                let (u, i, j) = jobs[k];
                let unit = &units[u];
                if stop.load(SeqCst) || Instant::now() > deadline {
                    tally.lock().unwrap().skipped += (j - i) as u64;
                    continue;
                }
                let l = unit.world(loaded);
                for sc in &unit.scens[i..j] {
                    if let Some((n, s)) = &a.only {
                        if *n != unit.name || *s != sc.name {
                            continue;
                        }
                    }
                    let t0 = Instant::now();
                    if t0 > deadline || stop.load(SeqCst) {
                        tally.lock().unwrap().skipped += 1;
                        continue;
                    }
                    set_until(Some((t0 + Duration::from_secs(if a.thorough { 300 } else if unit.eng == crate::plan::Eng::Sc { 40 } else { 6 })).min(deadline)));
                    let o = unit.explore(&l, sc);
                    set_until(None);
                    if let Some(t) = &times {
                        *t.lock().unwrap().entry(unit.name.split(" ").take(3).collect::<Vec<_>>().join(" ")).or_insert(0.0) += t0.elapsed().as_secs_f64();
                    }
                    if std::env::var_os("PAMC_SLOW").is_some() && t0.elapsed() > Duration::from_secs(2) {
                        eprintln!("slow: {:?} {} {} {} states", t0.elapsed(), unit.name, sc.name, o.states);
                    }
                    let mut t = tally.lock().unwrap();
                    if t.samples.len() < 6 && (t.scenarios % 997) == 3 {
                        let d: Vec<String> = sc.threads.iter().map(|x| describe(x)).collect();
                        t.samples.push(format!("{}: {} [{} states]", unit.name, d.join(" || "), o.states));
                    }
                    t.merge_outcome(&unit.name, sc, o);
                    if t.found.len() >= 8 {
                        stop.store(true, SeqCst);
                    }
                }
            });
        }
    });
    if let Some(t) = times {
        let mut v: Vec<_> = t.into_inner().unwrap().into_iter().collect();
        v.sort_by(|a, b| b.1.total_cmp(&a.1));
        for (k, x) in v.iter().take(40) {
            eprintln!("time: {x:.1} {k}");
        }
    }
}

fn known(prop: &str) -> Vec<(String, String)> {
    // lines: "known: property=Cxx unit=<prefix> scenario=<substring> -- text"
    let p = verif_root().join("known_findings.txt");
    let mut v = vec![];
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        let Some(r) = l.strip_prefix("known: ") else { continue };
        let head = r.split(" -- ").next().unwrap_or("");
        let (mut pr, mut un, mut sc) = ("", "", "");
        for part in head.split(';') {
            let part = part.trim();
            if let Some(x) = part.strip_prefix("property=") {
                pr = x;
            } else if let Some(x) = part.strip_prefix("unit=") {
                un = x;
            } else if let Some(x) = part.strip_prefix("scenario=") {
                sc = x;
            }
        }
        if pr == prop && !un.is_empty() && !sc.is_empty() {
            v.push((un.to_string(), sc.to_string()));
        }
    }
    v
}

pub fn run(a: &Args) -> i32 {
    let t0 = Instant::now();
    let root = verif_root();
    let budget = std::env::var("PAMC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if a.thorough { 3 * 3600 } else { 420 });
    let deadline = t0 + Duration::from_secs(budget);
    let plan = match plan(&a.prop, a.thorough) {
        Some(mut p) => {
            // for development: only some configurations
            if let Ok(only) = std::env::var("PAMC_CFGS") {
                p.cfgs.retain(|c| only.split(',').any(|o| o == *c));
            }
            p
        }
        None => {
            eprintln!("no check for {}", a.prop);
            return 2;
        }
    };
    let names: Vec<&str> = plan.cfgs.clone();
    let (loaded, notes) = match load_all(&names) {
        Ok(l) => l,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    let t_build = t0.elapsed().as_secs_f64();
    let tally: Mutex<Tally> = Default::default();
    tally.lock().unwrap().notes = notes;
    let units = (plan.units)(&loaded, a.thorough);
    let total: usize = units.iter().map(|u| u.scens.len()).sum();
    run_units(&loaded, &units, a, deadline, &tally);
    if a.prop == "C23" {
        if let Err(e) = crate::conv::run(a, &tally) {
            eprintln!("{e}");
            return 2;
        }
    }
    if let Some(f) = plan.more {
        f(&loaded, a, deadline, &tally);
    }
    if a.only.is_none() || a.only.as_ref().map(|o| o.0.contains(" on ")).unwrap_or(false) {
        let has = |quick: bool| plan.cfgs.iter().find(|c| crate::native::MACHINES.iter().any(|m| (m.quick || !quick) && m.cfg == **c)).copied();
        let few = has(true).or_else(|| has(false));
        let thorough = a.thorough;
        crate::native::of_units(&loaded, &units, thorough, &|m| thorough || Some(m.cfg) == few && (m.quick || has(true).is_none()), &tally);
    }
    let t = tally.into_inner().unwrap();
    // report
    let knowns = known(&a.prop);
    let mut fresh = vec![];
    for f in &t.found {
        if knowns.iter().any(|(u, s)| f.unit.starts_with(u.as_str()) && f.scen.contains(s.as_str())) {
            println!("KNOWN-FINDING: property={} {}: {}: {}", a.prop, f.unit, f.scen, f.msg);
        } else {
            fresh.push(f);
        }
    }
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    for (i, f) in fresh.iter().take(5).enumerate() {
        let p = dir.join(format!("{}-{i}.txt", a.prop));
        let mut s = format!("property {}\ntier {}\nunit {}\nscenario {}\nkind {}\nmessage {}\n", a.prop, if a.thorough { "thorough" } else { "quick" }, f.unit, f.scen, f.why, f.msg);
        for (k, d) in f.describe.iter().enumerate() {
            let _ = writeln!(s, "thread {k}: {d}");
        }
        for l in &f.trace {
            let _ = writeln!(s, "  {l}");
        }
        let _ = writeln!(s, "# replay: ./run.sh replay {}", p.display());
        let _ = std::fs::write(&p, s);
        println!("{}: {}: {} ({})", f.unit, f.scen, f.msg, f.why);
        println!("VIOLATION property={} replay={}", a.prop, p.display());
    }
    if a.only.is_none() {
        let mut ev = String::new();
        let _ = write!(
            ev,
            "{{\n \"property\": {}, \"tier\": \"{}\", \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {}, \"transitions\": {}, \"scenarios\": {}, \"complete_executions_ends\": {}, \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"scenarios_planned\": {}, \"scenarios_skipped_for_time\": {}, \"largest_state_space\": {},\n  \"inconclusive\": {{",
            json_str(&a.prop),
            if a.thorough { "thorough" } else { "quick" },
            a.seed,
            t.states,
            t.transitions,
            t.scenarios,
            t.finals,
            t.impl_traces,
            t.skipped == 0 && t.inconclusive.is_empty(),
            total,
            t.skipped,
            json_str(&format!("{} states: {}", t.biggest.0, t.biggest.1))
        );
        let v: Vec<String> = t.inconclusive.iter().take(40).map(|(k, (n, e))| format!("{}: {}", json_str(k), json_str(&format!("{n} scenarios, e.g. {e}")))).collect();
        let _ = write!(ev, "{}}},\n  \"per_unit\": {{", v.join(", "));
        let v: Vec<String> = t.per.iter().map(|(k, (n, s, tr))| format!("{}: \"{n} scenarios, {s} states, {tr} transitions\"", json_str(k))).collect();
        let _ = write!(ev, "{}}},\n  ", v.join(", "));
        for (k, n) in &t.extra {
            let _ = write!(ev, "{}: {n}, ", json_str(k));
        }
        let v: Vec<String> = t.machines.iter().map(|(k, n)| format!("{}: {n}", json_str(k))).collect();
        let _ = write!(ev, "\"sequences_validated_per_machine\": {{{}}}, ", v.join(", "));
        let v: Vec<String> = t.samples.iter().map(|s| json_str(s)).collect();
        let _ = write!(ev, "\"samples\": [{}]\n }},\n", v.join(",\n   "));
        let v: Vec<String> = plan.assumptions.iter().map(|s| json_str(s)).chain(t.notes.iter().map(|s| json_str(s))).collect();
        let _ = write!(ev, " \"assumptions\": [{}],\n \"wall_s\": {:.1}, \"violations\": {}\n}}\n", v.join(",\n  "), t0.elapsed().as_secs_f64(), fresh.len());
        let _ = std::fs::create_dir_all(root.join("evidence"));
        if let Err(e) = std::fs::write(root.join("evidence").join(format!("{}.json", a.prop)), ev) {
            eprintln!("evidence: {e}");
            return 2;
        }
    }
    println!(
        "{} {}: {} scenarios, {} states, {} transitions, {} inconclusive, {} skipped, {} violations, build {:.1} s, total {:.1} s",
        a.prop,
        if a.thorough { "thorough" } else { "quick" },
        t.scenarios,
        t.states,
        t.transitions,
        t.inconclusive.values().map(|x| x.0).sum::<u64>(),
        t.skipped,
        fresh.len(),
        t_build,
        t0.elapsed().as_secs_f64()
    );
    for (k, (n, e)) in t.inconclusive.iter().take(10) {
        println!("  inconclusive: {n} x {k}, e.g. {e}");
    }
    if fresh.is_empty() { 0 } else { 1 }
}

pub fn replay(path: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).map(|x| x.trim().to_string()).unwrap_or_default();
    let a = Args { prop: get("property "), thorough: get("tier ") == "thorough", seed: 1, only: Some((get("unit "), get("scenario "))) };
    run(&a)
}
