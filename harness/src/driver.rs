//! The search: many seeded runs on all cores, in a child process so that a
//! crash or a hang of the code under test is a result and not an accident.

use crate::checks::{Prop, Tier};
use crate::prng::mix;
use crate::run::HARNESS;
use crate::spec::*;
use crate::world::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Longest a single run may take before it counts as hung.
const HANG: Duration = Duration::from_secs(90);

pub fn run_seed(prop: &Prop, seed: u64, i: u64) -> u64 {
    let mut h = mix(seed ^ 0xD57);
    for b in prop.id.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h.wrapping_add(i)) >> 16
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub detail: String,
    pub seed: u64,
    pub run: u64,
    pub steps: usize,
    pub minimised_from: (usize, usize),
    pub scenario: Scenario,
}

#[derive(Serialize, Deserialize, Default)]
pub struct Totals {
    pub runs: u64,
    pub nontrivial: u64,
    pub distinct: u64,
    pub distinct_nontrivial: u64,
    pub states: u64,
    pub steps: u64,
    pub sim_time: f64,
    pub counts: BTreeMap<String, u64>,
    pub gauges: BTreeMap<String, f64>,
    pub families: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub search_s: f64,
    pub capped: bool,
    pub faulty_runs: u64,
    pub digest: u64,
    pub violation: Option<Replay>,
    pub found: u64,
}

struct Shared {
    next: u64,
    best: Option<(u64, Violation, Scenario)>,
    found: u64,
    t: Totals,
    hashes: HashSet<u64>,
    good: HashSet<u64>,
    states: HashSet<u64>,
}

/// The child's part: runs `n` scenarios and prints a summary.
pub fn worker(prop: &'static Prop, tier: Tier, seed: u64, threads: usize) -> i32 {
    let n = prop.runs(tier);
    let cap = Duration::from_secs(match tier {
        Tier::Quick => 300,
        Tier::Thorough => 3000,
    });
    let t0 = Instant::now();
    let sh = Mutex::new(Shared {
        next: 0,
        best: None,
        found: 0,
        t: Totals::default(),
        hashes: HashSet::new(),
        good: HashSet::new(),
        states: HashSet::new(),
    });
    let out = Mutex::new(());
    let say = |s: String| {
        let _g = out.lock().unwrap();
        let so = std::io::stdout();
        let mut so = so.lock();
        let _ = writeln!(so, "{s}");
        let _ = so.flush();
    };
    let busy: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
    let stop = AtomicBool::new(false);
    std::thread::scope(|s| {
        let mut hs = vec![];
        for w in 0..threads {
            let (sh, busy, say) = (&sh, &busy, &say);
            hs.push(s.spawn(move || loop {
                let i = {
                    let mut g = sh.lock().unwrap();
                    let limit = g.best.as_ref().map_or(n, |b| b.0);
                    if g.next >= limit {
                        return;
                    }
                    if t0.elapsed() > cap {
                        g.t.capped = true;
                        return;
                    }
                    g.next += 1;
                    g.next - 1
                };
                busy[w].1.store(t0.elapsed().as_millis() as u64, SeqCst);
                busy[w].0.store(i, SeqCst);
                say(format!("S {i}"));
                let sc = prop.scenario(run_seed(prop, seed, i));
                let r = prop.run(&sc);
                busy[w].0.store(u64::MAX, SeqCst);
                say(format!("R {i}"));
                let mut g = sh.lock().unwrap();
                g.t.runs += 1;
                *g.t.families.entry(sc.family.clone()).or_insert(0) += 1;
                g.t.steps += r.stats.steps;
                g.t.sim_time += r.stats.sim_time;
                let p = &r.stats.probes;
                if p.0.iter().any(|(k, v)| k.starts_with("fault_") && *v > 0) {
                    g.t.faulty_runs += 1;
                }
                for (k, v) in &p.0 {
                    *g.t.counts.entry(k.clone()).or_insert(0) += v;
                }
                for (k, v) in &p.1 {
                    let e = g.t.gauges.entry(k.clone()).or_insert(*v);
                    *e = e.max(*v);
                }
                let new = g.hashes.insert(r.stats.trace_hash);
                g.t.digest = g.t.digest.wrapping_add(mix(r.stats.trace_hash ^ mix(i)));
                if (prop.nontrivial)(p) {
                    g.t.nontrivial += 1;
                    g.good.insert(r.stats.trace_hash);
                    if new && g.t.samples.len() < 5 {
                        g.t.samples.push(format!(
                            "run {i} seed {} family {}: {} links, {} operations, {} steps, {:.1} s simulated",
                            sc.seed, sc.family, sc.net.links.len(), sc.program.iter().filter(|o| !matches!(o, Op::Step { .. })).count(), r.stats.steps, r.stats.sim_time
                        ));
                    }
                }
                g.states.extend(r.stats.states);
                if let Some(v) = r.violation {
                    g.found += 1;
                    if g.best.as_ref().map_or(true, |b| i < b.0) {
                        g.best = Some((i, v, sc));
                    }
                }
            }));
        }
        // watch for runs that never end
        let (busy, stop, say) = (&busy, &stop, &say);
        s.spawn(move || {
            while !stop.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(200));
                let now = t0.elapsed().as_millis() as u64;
                for b in busy {
                    let i = b.0.load(SeqCst);
                    if i != u64::MAX && now.saturating_sub(b.1.load(SeqCst)) > HANG.as_millis() as u64 && b.0.load(SeqCst) == i {
                        say(format!("H {i}"));
                        std::process::exit(9);
                    }
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        stop.store(true, SeqCst);
    });
    let search = t0.elapsed().as_secs_f64();
    let mut g = sh.into_inner().unwrap();
    g.t.search_s = search;
    g.t.distinct = g.hashes.len() as u64;
    g.t.distinct_nontrivial = g.good.len() as u64;
    g.t.states = g.states.len() as u64;
    g.t.found = g.found;
    if let Some((i, v, sc)) = g.best.take() {
        let from = (sc.program.len(), sc.steps());
        let (sc, v) = if v.class == HARNESS { (sc, v) } else { shrink(prop, sc, v) };
        g.t.violation = Some(Replay {
            property: prop.id.into(),
            class: v.class,
            detail: v.detail,
            seed,
            run: i,
            steps: sc.steps(),
            minimised_from: from,
            scenario: sc,
        });
    }
    say(format!("F {}", serde_json::to_string(&g.t).unwrap()));
    0
}

/// The vehicle an operation is about.
fn subject(op: &Op) -> Option<usize> {
    match op {
        Op::Spawn { v, .. } | Op::Remove { v } | Op::Freeze { v, .. } | Op::Dest { v, .. } | Op::LaneChange { v, .. } => Some(*v),
        Op::Wild { op } => subject(op),
        _ => None,
    }
}

/// Makes a failing scenario smaller while it keeps failing in the same way.
pub fn shrink(prop: &Prop, sc: Scenario, v: Violation) -> (Scenario, Violation) {
    let t0 = Instant::now();
    let mut best = (sc, v);
    let attempt = |best: &mut (Scenario, Violation), sc: Scenario| -> bool {
        if t0.elapsed() > Duration::from_secs(60) {
            return false;
        }
        match prop.run(&sc).violation {
            Some(v) if v.class == best.1.class => {
                *best = (sc, v);
                true
            }
            _ => false,
        }
    };
    // shorter: cut the program off
    let mut lo = 0;
    let mut hi = best.0.steps();
    while lo + 1 < hi {
        let mid = (lo + hi) / 2;
        let mut c = best.0.clone();
        c.program = truncate(&c.program, mid);
        if attempt(&mut best, c) {
            hi = mid;
        } else {
            lo = mid;
        }
    }
    // fewer vehicles
    let mut vs: Vec<usize> = best.0.program.iter().filter_map(subject).collect();
    vs.sort();
    vs.dedup();
    let mut size = vs.len() / 2;
    while size > 0 {
        let mut i = 0;
        while i < vs.len() {
            let gone: Vec<usize> = vs[i..vs.len().min(i + size)].to_vec();
            let mut c = best.0.clone();
            c.program.retain(|o| subject(o).map_or(true, |v| !gone.contains(&v)));
            if attempt(&mut best, c) {
                vs.retain(|v| !gone.contains(v));
            } else {
                i += size;
            }
        }
        size /= 2;
    }
    // fewer operations
    let ops = |p: &[Op]| -> Vec<usize> {
        (0..p.len()).filter(|i| !matches!(p[*i], Op::Step { .. } | Op::Spawn { .. })).collect()
    };
    let mut size = ops(&best.0.program).len();
    while size > 0 {
        let mut i = 0;
        loop {
            let idx = ops(&best.0.program);
            if i >= idx.len() {
                break;
            }
            let gone: HashSet<usize> = idx[i..idx.len().min(i + size)].iter().copied().collect();
            let mut c = best.0.clone();
            c.program = c.program.into_iter().enumerate().filter(|(k, _)| !gone.contains(k)).map(|x| x.1).collect();
            if !attempt(&mut best, c) {
                i += size;
            }
        }
        size /= 2;
    }
    merge_steps(&mut best.0.program);
    best
}

fn merge_steps(p: &mut Vec<Op>) {
    let mut out: Vec<Op> = vec![];
    for op in p.drain(..) {
        if let (Some(Op::Step { dt, n }), Op::Step { dt: d, n: m }) = (out.last_mut(), &op) {
            if dt == d {
                *n += m;
                continue;
            }
        }
        out.push(op);
    }
    *p = out;
}

fn truncate(p: &[Op], steps: usize) -> Vec<Op> {
    let mut left = steps;
    let mut out = vec![];
    for op in p {
        if let Op::Step { dt, n } = op {
            let k = left.min(*n);
            if k > 0 {
                out.push(Op::Step { dt: *dt, n: k });
            }
            left -= k;
            if left == 0 {
                break;
            }
        } else {
            out.push(op.clone());
        }
    }
    out
}

fn root() -> std::path::PathBuf {
    std::env::var("VERIF_ROOT").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

fn write_replay(r: &Replay) -> std::io::Result<String> {
    let dir = root().join("replays");
    std::fs::create_dir_all(&dir)?;
    let path = dir.join(format!("{}-{}-{}.json", r.property, r.seed, r.run));
    std::fs::write(&path, serde_json::to_string_pretty(r).unwrap())?;
    Ok(path.display().to_string())
}

/// The parent's part. Returns the exit code of the check.
pub fn check(prop: &'static Prop, tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let mut child = std::process::Command::new(&exe)
        .args(["worker", prop.id, tier.name(), &seed.to_string()])
        .stdout(std::process::Stdio::piped())
        .spawn()
        .expect("cannot start the worker");
    let mut open: HashSet<u64> = HashSet::new();
    let mut started = 0u64;
    let mut totals: Option<Totals> = None;
    let mut hung: Option<u64> = None;
    for line in std::io::BufReader::new(child.stdout.take().unwrap()).lines() {
        let Ok(line) = line else { break };
        let (tag, rest) = line.split_at(line.len().min(2));
        match tag {
            "S " => {
                open.insert(rest.parse().unwrap());
                started += 1;
            }
            "R " => {
                open.remove(&rest.parse().unwrap());
            }
            "H " => hung = rest.parse().ok(),
            "F " => totals = serde_json::from_str(rest).ok(),
            _ => {}
        }
    }
    let status = child.wait().expect("cannot wait for the worker");
    let mut t = totals.unwrap_or_default();
    if let Some(i) = hung {
        t.runs = started;
        t.violation = Some(crash_replay(prop, seed, i, "hang", format!("run {i} did not finish within {HANG:?}")));
    } else if t.runs == 0 {
        // the worker died: find out in which run
        t.runs = started;
        let mut is: Vec<u64> = open.into_iter().collect();
        is.sort();
        for i in is {
            let s = std::process::Command::new(&exe)
                .args(["one", prop.id, &seed.to_string(), &i.to_string()])
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .status()
                .expect("cannot start the worker");
            if s.code().is_none() {
                t.violation = Some(crash_replay(prop, seed, i, "crash", format!("run {i} brought the process down: {s}")));
                break;
            }
        }
        if t.violation.is_none() {
            eprintln!("the worker died ({status}) and no single run reproduces it");
            return 2;
        }
    }
    if let Some(r) = &t.violation {
        if r.class == HARNESS {
            eprintln!("harness error in run {} of seed {}: {}", r.run, r.seed, r.detail);
            return 2;
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut violations = vec![];
    let mut line = None;
    if let Some(r) = &t.violation {
        let path = match write_replay(r) {
            Ok(p) => p,
            Err(e) => {
                eprintln!("cannot write the replay file: {e}");
                return 2;
            }
        };
        println!("{} {}: {}", r.property, r.class, r.detail);
        println!("found in run {} of seed {}; {} operations and {} steps, minimised to {} and {}", r.run, r.seed, r.minimised_from.0, r.minimised_from.1, r.scenario.program.len(), r.steps);
        line = Some(format!("VIOLATION property={} replay={}", r.property, path));
        violations.push(serde_json::json!({"class": r.class, "detail": r.detail, "seed": r.seed, "run": r.run, "replay": path}));
        code = 1;
    }
    let faults: BTreeMap<&String, &u64> = t.counts.iter().filter(|c| c.0.starts_with("fault_")).collect();
    let events: BTreeMap<&String, &u64> = t.counts.iter().filter(|c| !c.0.starts_with("fault_")).collect();
    let per_hour = t.runs as f64 / f64::max(t.search_s, 1e-3) * 3600.0;
    let ev = serde_json::json!({
        "property": prop.id,
        "tier": tier.name(),
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.distinct_nontrivial,
            "rule": prop.rule,
            "samples": t.samples,
            "distinct_executions": t.distinct,
            "distinct_executions_measure": "distinct 64-bit hashes over every observation of a run: frame, and link, position, speed, coordinates and heading of each vehicle bit for bit, and each light",
            "abstract_states": t.states,
            "abstract_states_measure": "distinct multisets of (link, position to 10 m, speed to 3 m/s) of the vehicles together with the lights shown, sampled every fourth step; links are numbered per scenario",
            "runs_with_faults": t.faulty_runs,
            "faults_injected": faults,
            "events": events,
            "extremes": t.gauges,
            "families": t.families,
            "steps": t.steps,
            "simulated_seconds": t.sim_time,
            "search_wall_s": t.search_s,
            "runs_per_hour": per_hour,
            "seeds": "every run has a seed of its own, derived from VERIF_SEED, the property and the number of the run",
            "stopped_by_time_cap": t.capped,
            "violations_found": violations,
            "execution_digest": format!("{:016x}", t.digest),
            "real_components": "the traffic-sim crate as a whole, built from /repo's working tree, with its dependencies",
            "stubbed_components": "operating-system entropy (getrandom) is served from a seeded stream; there is no other clock, network or disk access in the crate",
        },
        "wall_s": wall,
        "assumptions": prop.assumptions,
        "violations": code,
    });
    let dir = root().join("evidence");
    let res = std::fs::create_dir_all(&dir)
        .and_then(|_| std::fs::write(dir.join(format!("{}.json", prop.id)), serde_json::to_string_pretty(&ev).unwrap()));
    if let Err(e) = res {
        eprintln!("cannot write the evidence: {e}");
        return 2;
    }
    println!(
        "{} {}: {} runs ({} with faults), {} distinct nontrivial, {:.0} s simulated in {:.1} s",
        prop.id, tier.name(), t.runs, t.faulty_runs, t.distinct_nontrivial, t.sim_time, t.search_s
    );
    if let Some(l) = line {
        println!("{l}");
    } else if t.distinct_nontrivial == 0 {
        eprintln!("no run reached what the property is about");
        return 2;
    }
    code
}

fn crash_replay(prop: &'static Prop, seed: u64, i: u64, class: &str, detail: String) -> Replay {
    let sc = prop.scenario(run_seed(prop, seed, i));
    Replay {
        property: prop.id.into(),
        class: class.into(),
        detail,
        seed,
        run: i,
        steps: sc.steps(),
        minimised_from: (sc.program.len(), sc.steps()),
        scenario: sc,
    }
}
