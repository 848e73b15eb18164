//! Properties that compare several runs with one another.

use crate::fam::finish;
use crate::prng::{mix, Rng};
use crate::run::*;
use crate::scen;
use crate::spec::*;
use crate::world::*;
use std::collections::BTreeSet;

fn bad(class: &str, detail: String) -> Violation {
    Violation { class: class.into(), detail }
}

type Log = (Vec<Snap>, RunStats);

fn wrap(r: Result<RunStats, (Violation, RunStats)>) -> RunResult {
    match r {
        Ok(stats) => RunResult { violation: None, stats },
        Err((v, stats)) => RunResult { violation: Some(v), stats },
    }
}

fn log(sc: &Scenario, entropy: u64) -> Result<Log, (Violation, RunStats)> {
    recorded(sc, entropy).map_err(|v| (v, RunStats::default()))
}

/// What differs between two observations of one vehicle.
fn differs(a: &VSnap, b: &VSnap, link_off: usize, tol: f64) -> Option<&'static str> {
    let same = |x: f64, y: f64| x.to_bits() == y.to_bits() || (x - y).abs() <= tol;
    if a.link != b.link + link_off {
        return Some("link");
    }
    for (n, x, y) in [
        ("position", a.pos, b.pos),
        ("speed", a.vel, b.vel),
        ("x", a.xy[0], b.xy[0]),
        ("y", a.xy[1], b.xy[1]),
        ("heading", a.dir[0], b.dir[0]),
        ("heading", a.dir[1], b.dir[1]),
    ] {
        if !same(x, y) {
            return Some(n);
        }
    }
    None
}

fn describe(v: &Option<&VSnap>) -> String {
    match v {
        None => "absent".into(),
        Some(v) => format!("on link {} at {:.6} m, {:.6} m/s", v.link, v.pos, v.vel),
    }
}

/// Compares vehicles `vs` of `a` (numbered as there) with `b`, whose vehicles
/// and links are numbered from `v_off` and `l_off`.
fn same_runs(
    class: &str,
    what: &str,
    a: &[Snap],
    b: &[Snap],
    vs: impl Iterator<Item = usize> + Clone,
    v_off: usize,
    l_off: usize,
    tol: f64,
    p: &mut Probes,
) -> Result<(), Violation> {
    for (x, y) in a.iter().zip(b) {
        for v in vs.clone() {
            let (s, t) = (x.get(v), y.get(v - v_off));
            let d = match (s, t) {
                (None, None) => continue,
                (Some(s), Some(t)) => differs(s, t, l_off, tol),
                _ => Some("presence"),
            };
            p.hit("observations_compared");
            if let Some(d) = d {
                return Err(bad(
                    class,
                    format!(
                        "{what}: at {:.4} s vehicle v{v} differs in its {d}: {} / {}",
                        x.t,
                        describe(&s),
                        describe(&t)
                    ),
                ));
            }
        }
    }
    Ok(())
}

fn vehicles_of(sc: &Scenario) -> usize {
    sc.program
        .iter()
        .filter_map(|o| match o {
            Op::Spawn { v, .. } => Some(v + 1),
            _ => None,
        })
        .max()
        .unwrap_or(0)
}

fn has_randomise(sc: &Scenario) -> bool {
    sc.program.iter().any(|o| matches!(o, Op::Randomise { .. }))
}

pub fn no_randomise(mut sc: Scenario) -> Scenario {
    sc.program.retain(|o| !matches!(o, Op::Randomise { .. }));
    sc
}

// ---------------------------------------------------------------- determinism

/// Another simulation that is run in between the steps of the one watched.
struct Decoy {
    w: World,
    ops: std::vec::IntoIter<Op>,
    left: (f64, usize),
    cur: Snap,
}

impl Decoy {
    fn new(sc: &Scenario) -> Decoy {
        let mut w = World::build(&sc.net);
        let cur = w.snap();
        Decoy { w, ops: sc.program.clone().into_iter(), left: (0.0, 0), cur }
    }

    fn tick(&mut self) {
        loop {
            if self.left.1 > 0 {
                self.left.1 -= 1;
                self.w.sim.step(self.left.0);
                self.w.time += self.left.0;
                self.cur = self.w.snap();
                return;
            }
            match self.ops.next() {
                Some(Op::Step { dt, n }) => self.left = (dt, n),
                Some(op) => {
                    self.w.apply(&op, &self.cur);
                    self.cur = self.w.snap();
                }
                None => return,
            }
        }
    }
}

impl Monitor for Decoy {
    fn step(&mut self, _c: &Ctx, _dt: f64, _a: &Snap, _b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        self.tick();
        p.hit("other_simulation_stepped");
        Ok(())
    }
}

pub fn any_network(seed: u64) -> Scenario {
    let s = mix(seed ^ 0xA11) >> 16;
    match mix(seed ^ 0xA12) % 10 {
        0 => scen::road(s),
        1 => scen::tree_with(s, 10.0, 0.1),
        2 => scen::grid_run(s, 6.0),
        3 | 4 => scen::multi(s, 4.0),
        5 => scen::signal(s),
        6 => scen::corridor(s),
        7 => scen::give_way(s),
        8 => scen::roundabout(s),
        _ => scen::all_way(s, false),
    }
}

pub fn determinism(sc: &Scenario) -> RunResult {
    wrap(determinism_(sc))
}

fn determinism_(sc: &Scenario) -> Result<RunStats, (Violation, RunStats)> {
    let once = |entropy: u64, decoy: Option<Scenario>| {
        let s = sc.clone();
        isolated(entropy, move || {
            let mut m: Vec<Box<dyn Monitor>> = vec![];
            if let Some(d) = &decoy {
                m.push(Box::new(Decoy::new(d)));
            }
            execute(&s, &mut m).stats
        })
        .map_err(|v| (v, RunStats::default()))
    };
    let mut base = once(sc.entropy, None)?;
    let hash = base.trace_hash;
    let random = has_randomise(sc);
    let mut others = vec![];
    others.push(("the same run again", "not-repeatable", once(sc.entropy, None)?));
    base.probes.hit("repeated");
    if random {
        base.probes.hit("repeated_with_random_speeds");
    } else {
        others.push(("other operating-system entropy", "depends-on-entropy", once(mix(sc.entropy), None)?));
        base.probes.hit("entropy_varied");
    }
    let decoy = no_randomise(any_network(mix(sc.seed ^ 0xDEC0)));
    let d = once(sc.entropy, Some(decoy))?;
    base.probes.add("other_simulation_stepped", d.probes.get("other_simulation_stepped"));
    others.push(("another simulation run in between", "depends-on-another-simulation", d));
    for (what, class, o) in others {
        if o.trace_hash != hash || o.steps != base.steps {
            return Err((bad(class, format!("{what}: the observations are not the same ({:016x} / {hash:016x})", o.trace_hash)), base));
        }
    }
    Ok(base)
}

// ------------------------------------------------------- independent networks

/// Shifts the links, vehicles and lights of a scenario by the given offsets.
fn shift_op(op: &Op, dv: isize, dl: isize) -> Op {
    let v_ = |v: usize| (v as isize + dv) as usize;
    let l_ = |l: usize| (l as isize + dl) as usize;
    match op.clone() {
        Op::Spawn { v, veh, link, dest } => Op::Spawn { v: v_(v), veh, link: l_(link), dest: dest.map(l_) },
        Op::Remove { v } => Op::Remove { v: v_(v) },
        Op::Freeze { v, on } => Op::Freeze { v: v_(v), on },
        Op::Dest { v, link } => Op::Dest { v: v_(v), link: l_(link) },
        Op::LaneChange { v, link, dist } => Op::LaneChange { v: v_(v), link: l_(link), dist },
        Op::Control { link, control } => Op::Control { link: l_(link), control },
        Op::AddLight { light } => Op::AddLight { light: shift_light(&light, dl) },
        o => o,
    }
}

fn shift_light(l: &LightSpec, dl: isize) -> LightSpec {
    let mut l = l.clone();
    for m in &mut l.movements {
        for x in &mut m.links {
            *x = (*x as isize + dl) as usize;
        }
    }
    l
}

fn subject(op: &Op) -> (Option<usize>, Option<usize>) {
    match op {
        Op::Spawn { v, .. } | Op::Remove { v } | Op::Freeze { v, .. } | Op::Dest { v, .. } | Op::LaneChange { v, .. } => {
            (Some(*v), None)
        }
        Op::Control { link, .. } => (None, Some(*link)),
        Op::AddLight { light } => (None, light.movements.iter().flat_map(|m| m.links.first()).next().copied()),
        _ => (None, None),
    }
}

fn join(net: &mut Net, b: &Net) {
    let o = net.links.len();
    net.links.extend(b.links.iter().cloned());
    net.conns.extend(b.conns.iter().map(|(x, y)| (x + o, y + o)));
    net.groups.extend(b.groups.iter().map(|(g, m)| (g.iter().map(|l| l + o).collect(), *m)));
    net.conv.extend(b.conv.iter().map(|(x, y)| (x + o, y + o)));
    net.lights.extend(b.lights.iter().map(|l| shift_light(l, o as isize)));
    net.controls.extend(b.controls.iter().map(|(l, c)| (l + o, *c)));
}

/// The part of a network made of links `lo..hi` and lights `l0..l1`.
fn part(net: &Net, lo: usize, hi: usize, l0: usize, l1: usize) -> Net {
    let inn = |l: &usize| (lo..hi).contains(l);
    Net {
        links: net.links[lo..hi].to_vec(),
        conns: net.conns.iter().filter(|c| inn(&c.0)).map(|c| (c.0 - lo, c.1 - lo)).collect(),
        groups: net.groups.iter().filter(|g| inn(&g.0[0])).map(|g| (g.0.iter().map(|l| l - lo).collect(), g.1)).collect(),
        conv: net.conv.iter().filter(|c| inn(&c.0)).map(|c| (c.0 - lo, c.1 - lo)).collect(),
        lights: net.lights[l0..l1].iter().map(|l| shift_light(l, -(lo as isize))).collect(),
        controls: net.controls.iter().filter(|c| inn(&c.0)).map(|c| (c.0 - lo, c.1)).collect(),
        tags: vec![],
        late: None,
    }
}

/// Two scenarios side by side in one simulation, on the clock of the first.
/// The networks may lie on top of one another, but nothing connects them.
pub fn side_by_side(seed: u64) -> Scenario {
    let r = &mut Rng::new(seed);
    let one = |r: &mut Rng| {
        let s = r.u64() >> 16;
        no_randomise(match r.below(9) {
            0 => scen::road(s),
            1 => scen::tree_with(s, 10.0, 0.0),
            2 => scen::grid_run(s, 6.0),
            3 | 4 => scen::multi(s, 4.0),
            5 => scen::signal(s),
            6 => scen::corridor(s),
            7 => scen::stops(s),
            _ => scen::give_way(s),
        })
    };
    let a = one(r);
    let b = one(r);
    let (nl, nv, ns) = (a.net.links.len(), vehicles_of(&a), a.net.lights.len());
    // the second's operations by time; it may be built while the first is running
    let late = r.chance(0.3).then(|| r.f(0.1, 40.0));
    let mut t = late.unwrap_or(0.0);
    let mut evs: Vec<(f64, Op)> = late.iter().map(|t| (*t, Op::Grow)).collect();
    for op in &b.program {
        match op {
            Op::Step { dt, n } => t += dt * *n as f64,
            Op::Quiesce => {}
            op => {
                if !(matches!(op, Op::AddLight { .. }) && subject(op).1.is_none()) {
                    evs.push((t, shift_op(op, nv as isize, nl as isize)));
                }
            }
        }
    }
    let mut evs = evs.into_iter().peekable();
    let mut net = a.net.clone();
    net.tags.clear();
    join(&mut net, &b.net);
    net.late = late.map(|_| nl);
    net.tag("split_links", nl);
    net.tag("split_vehicles", nv);
    net.tag("split_lights", ns);
    net.tag("exact_a", (a.family != "giveway") as usize);
    net.tag("exact_b", (b.family != "giveway") as usize);
    let mut program = vec![];
    let mut t = 0.0;
    for op in &a.program {
        match op {
            Op::Step { dt, n } => {
                let mut n0 = 0;
                for _ in 0..*n {
                    while evs.peek().map_or(false, |e| e.0 <= t) {
                        if n0 > 0 {
                            program.push(Op::Step { dt: *dt, n: n0 });
                            n0 = 0;
                        }
                        program.push(evs.next().unwrap().1);
                    }
                    t += dt;
                    n0 += 1;
                }
                if n0 > 0 {
                    program.push(Op::Step { dt: *dt, n: n0 });
                }
            }
            Op::AddLight { .. } if subject(op).1.is_none() => {}
            op => program.push(op.clone()),
        }
    }
    finish(&format!("{}+{}", a.family, b.family), seed, r, net, program)
}

pub fn independence(sc: &Scenario) -> RunResult {
    wrap(independence_(sc))
}

fn independence_(sc: &Scenario) -> Result<RunStats, (Violation, RunStats)> {
    let tag = |n: &str| sc.net.tagged(n)[0];
    let (nl, nv, ns) = (tag("split_links"), tag("split_vehicles"), tag("split_lights"));
    let (both, mut stats) = log(sc, sc.entropy)?;
    let total = sc.net.links.len();
    let vs = vehicles_of(sc);
    for side in 0..2 {
        let (lo, hi, l0, l1, v0, v1) = if side == 0 {
            (0, nl, 0, ns, 0, nv)
        } else {
            (nl, total, ns, sc.net.lights.len(), nv, usize::max(vs, nv))
        };
        if tag(["exact_a", "exact_b"][side]) == 0 {
            continue;
        }
        let mut own = sc.clone();
        own.net = part(&sc.net, lo, hi, l0, l1);
        own.net.late = if side == 1 { sc.net.late.map(|_| 0) } else { None };
        own.program = sc
            .program
            .iter()
            .filter(|op| match subject(op) {
                (Some(v), _) => (v0..v1).contains(&v),
                (_, Some(l)) => (lo..hi).contains(&l),
                _ => true,
            })
            .map(|op| shift_op(op, -(v0 as isize), -(lo as isize)))
            .collect();
        let (alone, _) = log(&own, sc.entropy)?;
        stats.probes.hit("compared_alone");
        let r = same_runs(
            "disturbed-by-another-network",
            &format!("side {side} together / alone"),
            &both,
            &alone,
            v0..v1,
            v0,
            lo,
            0.0,
            &mut stats.probes,
        );
        if let Err(v) = r {
            return Err((v, stats));
        }
        // lights there from the start are in the same order in both
        for (x, y) in both.iter().zip(&alone) {
            for k in l0..l1 {
                if x.lights[k] != y.lights[k - l0] {
                    return Err((bad("disturbed-by-another-network", format!("light {k} differs at {:.4} s: {:?} / {:?}", x.t, x.lights[k], y.lights[k - l0])), stats));
                }
                stats.probes.hit("lights_compared");
            }
        }
    }
    Ok(stats)
}

// ------------------------------------------------------------ traffic behind

/// Roads with one source, where the order of additions is the order on the road.
pub fn one_file(seed: u64) -> Scenario {
    let s = mix(seed ^ 0xF11E) >> 16;
    let mut sc = no_randomise(match mix(seed ^ 0xF12E) % 5 {
        0 => scen::road(s),
        1 => scen::tree(s),
        2 => scen::corridor(s),
        3 => scen::stops(s),
        _ => scen::road(s),
    });
    sc.seed = seed;
    sc
}

pub fn only_ahead(sc: &Scenario) -> RunResult {
    wrap(only_ahead_(sc))
}

fn only_ahead_(sc: &Scenario) -> Result<RunStats, (Violation, RunStats)> {
    let (all, mut stats) = log(sc, sc.entropy)?;
    // vehicles in order of their addition
    let order: Vec<usize> = sc.program.iter().filter_map(|o| if let Op::Spawn { v, .. } = o { Some(*v) } else { None }).collect();
    if order.len() < 2 {
        return Ok(stats);
    }
    let r = &mut Rng::new(sc.seed ^ 0x0A4EAD);
    for _ in 0..2 {
        let k = r.int(1, order.len() - 1);
        let keep: BTreeSet<usize> = order[..k].iter().copied().collect();
        let mut own = sc.clone();
        own.program.retain(|op| subject(op).0.map_or(true, |v| keep.contains(&v)));
        let (less, _) = log(&own, sc.entropy)?;
        stats.probes.hit("compared_without_those_behind");
        if let Err(v) = same_runs("disturbed-from-behind", &format!("with / without those behind v{}", order[k - 1]), &all, &less, keep.iter().copied(), 0, 0, 0.0, &mut stats.probes) {
            return Err((v, stats));
        }
    }
    // how close those left out came
    for s in &all {
        let v: Vec<_> = s.iter().collect();
        if v.windows(2).any(|w| (w[0].1.xy[0] - w[1].1.xy[0]).hypot(w[0].1.xy[1] - w[1].1.xy[1]) < 15.0) {
            stats.probes.hit("close_pairs");
        }
    }
    Ok(stats)
}

// ----------------------------------------------------------- idle time steps

/// Single-lane scenarios for which zero-length steps must not matter.
pub fn idle(seed: u64) -> Scenario {
    let s = mix(seed ^ 0x1D7E) >> 16;
    let mut sc = match mix(seed ^ 0x1D8E) % 9 {
        0 => scen::road(s),
        1 => scen::tree_with(s, 10.0, 0.0),
        2 => scen::corridor(s),
        3 => scen::stops(s),
        4 => scen::grid_run(s, 6.0),
        5 => scen::signal(s),
        6 => scen::multi(s, 0.0),
        7 => scen::roundabout(s),
        _ => scen::give_way(s),
    };
    sc.seed = seed;
    sc
}

pub fn idle_steps(sc: &Scenario) -> RunResult {
    wrap(idle_steps_(sc))
}

fn idle_steps_(sc: &Scenario) -> Result<RunStats, (Violation, RunStats)> {
    let (plain, mut stats) = log(sc, sc.entropy)?;
    let r = &mut Rng::new(sc.seed ^ 0x1D1E);
    let rate = *r.pick(&[0.01, 0.1, 0.5, 1.0]);
    let mut with = sc.clone();
    with.program.clear();
    // which observations of the run with idle steps correspond to the plain one
    let mut at = vec![];
    let mut n = 0;
    for op in &sc.program {
        match op {
            Op::Step { dt, n: k } => {
                let mut run = 0;
                for _ in 0..*k {
                    if r.chance(rate) {
                        if run > 0 {
                            with.program.push(Op::Step { dt: *dt, n: run });
                            run = 0;
                        }
                        let z = if r.chance(0.8) { 1 } else { r.int(2, 12) };
                        with.program.push(Op::Step { dt: 0.0, n: z });
                        stats.probes.add("idle_steps_inserted", z as u64);
                        n += z;
                    }
                    run += 1;
                    n += 1;
                    at.push(n - 1);
                }
                if run > 0 {
                    with.program.push(Op::Step { dt: *dt, n: run });
                }
            }
            op => with.program.push(op.clone()),
        }
    }
    let (idle, _) = log(&with, sc.entropy)?;
    let idle: Vec<Snap> = at.iter().filter_map(|i| idle.get(*i).cloned()).collect();
    let vs = vehicles_of(sc);
    if let Err(v) = same_runs("idle-steps-matter", "without / with zero-length steps", &plain, &idle, 0..vs, 0, 0, 1e-6, &mut stats.probes) {
        return Err((v, stats));
    }
    Ok(stats)
}

// ------------------------------------------------------------- undone at once

pub fn undone(sc: &Scenario) -> RunResult {
    wrap(undone_(sc))
}

fn undone_(sc: &Scenario) -> Result<RunStats, (Violation, RunStats)> {
    let (plain, mut stats) = log(sc, sc.entropy)?;
    let r = &mut Rng::new(sc.seed ^ 0x0D0E);
    let rate = *r.pick(&[0.003, 0.02, 0.1, 0.3]);
    let kinds: Vec<usize> = (0..4).filter(|_| r.chance(0.5)).collect();
    let kinds = if kinds.is_empty() { vec![0] } else { kinds };
    let vs = vehicles_of(sc);
    let links = sc.net.links.len();
    let mut with = sc.clone();
    with.program.clear();
    let mut control = vec![Control::Open; links];
    for (l, c) in &sc.net.controls {
        control[*l] = *c;
    }
    // the lights set these
    let mut lit = BTreeSet::new();
    let added = sc.program.iter().filter_map(|o| match o {
        Op::AddLight { light } => Some(light),
        _ => None,
    });
    for l in sc.net.lights.iter().chain(added) {
        lit.extend(l.movements.iter().flat_map(|m| m.links.iter().copied()));
    }
    let (mut done, mut extra) = (0, vs);
    for op in &sc.program {
        match op {
            Op::Step { dt, n } => {
                let mut run = 0;
                for _ in 0..*n {
                    run += 1;
                    done += 1;
                    if !r.chance(rate) || done > plain.len() {
                        continue;
                    }
                    with.program.push(Op::Step { dt: *dt, n: run });
                    run = 0;
                    let now = &plain[done - 1];
                    let there: Vec<usize> = now.iter().map(|x| x.0).collect();
                    let kind = *r.pick(&kinds);
                    match kind {
                        // somebody comes and goes
                        0 if extra < vs + 30 => {
                            let v = extra;
                            extra += 1;
                            let wild = |op| Op::Wild { op: Box::new(op) };
                            let dest = if r.chance(0.7) { Some(r.below(links)) } else { None };
                            with.program.push(wild(Op::Spawn { v, veh: crate::gen::vehicle(r), link: r.below(links), dest }));
                            if r.chance(0.3) {
                                with.program.push(Op::Freeze { v, on: true });
                            }
                            with.program.push(Op::Remove { v });
                            stats.probes.hit("undone_vehicle");
                        }
                        // frozen and released, or the other way round, or what it is anyway
                        1 if !there.is_empty() => {
                            let v = *r.pick(&there);
                            let on = now.get(v).unwrap().frozen;
                            for _ in 0..r.int(0, 2) {
                                with.program.push(Op::Freeze { v, on: !on });
                                with.program.push(Op::Freeze { v, on });
                            }
                            with.program.push(Op::Freeze { v, on });
                            stats.probes.hit("undone_freeze");
                        }
                        2 => {
                            let l = r.below(links);
                            if !lit.contains(&l) {
                                let other = match r.below(3) {
                                    0 => Control::Open,
                                    1 => Control::Closed,
                                    _ => Control::Yield { distance: r.f(0.0, 50.0), must_stop: r.chance(0.5), priority: r.int(0, 3) as i8 - 3 },
                                };
                                with.program.push(Op::Control { link: l, control: other });
                                with.program.push(Op::Control { link: l, control: control[l] });
                                stats.probes.hit("undone_control");
                            }
                        }
                        // somebody who has gone
                        3 => {
                            let v = r.below(vs + 1);
                            if v < vs && now.get(v).is_none() && plain[..done].iter().any(|x| x.get(v).is_some()) {
                                with.program.push(if r.chance(0.5) { Op::Remove { v } } else { Op::Freeze { v, on: r.chance(0.5) } });
                                stats.probes.hit("asked_for_one_gone");
                            }
                        }
                        _ => {}
                    }
                }
                if run > 0 {
                    with.program.push(Op::Step { dt: *dt, n: run });
                }
            }
            op => {
                if let Op::Control { link, control: c } = op {
                    control[*link] = *c;
                }
                with.program.push(op.clone());
            }
        }
    }
    let (other, _) = log(&with, sc.entropy)?;
    let same = same_runs("undone-matters", "without / with operations undone at once", &plain, &other, 0..vs, 0, 0, 0.0, &mut stats.probes);
    match same {
        Err(v) => Err((v, stats)),
        Ok(()) => Ok(stats),
    }
}

// ------------------------------------------------------------- turned around

pub fn turned(sc: &Scenario) -> RunResult {
    wrap(turned_(sc))
}

fn turned_(sc: &Scenario) -> Result<RunStats, (Violation, RunStats)> {
    let (plain, mut stats) = log(sc, sc.entropy)?;
    let r = &mut Rng::new(sc.seed ^ 0x7074);
    let quarter = r.below(4);
    let off = if r.chance(0.5) && sc.net.groups.is_empty() { [1024.0 * r.int(0, 8) as f64, -2048.0 * r.int(0, 4) as f64] } else { [0.0, 0.0] };
    let mirror = r.chance(0.5);
    let turn = |p: [f64; 2]| {
        let p = if mirror { [-p[0], p[1]] } else { p };
        match quarter {
            0 => p,
            1 => [-p[1], p[0]],
            2 => [-p[0], -p[1]],
            _ => [p[1], -p[0]],
        }
    };
    let place = |p: [f64; 2]| {
        let q = turn(p);
        [q[0] + off[0], q[1] + off[1]]
    };
    let mut other = sc.clone();
    for l in &mut other.net.links {
        l.curve = match l.curve {
            Curve::Line(p) => Curve::Line(p.map(place)),
            Curve::Quad(p) => Curve::Quad(p.map(place)),
            Curve::Cubic(p) => Curve::Cubic(p.map(place)),
        };
    }
    if mirror {
        stats.probes.hit("networks_mirrored");
        // two lanes, counted from the left again
        if r.chance(0.5) {
            for (ls, mask) in other.net.groups.iter_mut().filter(|g| g.0.len() == 2) {
                ls.reverse();
                *mask = (*mask & 2) << 1 | (*mask & 4) >> 1;
                stats.probes.hit("lanes_reversed");
            }
        }
    }
    let (moved, _) = log(&other, sc.entropy)?;
    if quarter > 0 {
        stats.probes.hit("networks_turned");
    }
    if off != [0.0, 0.0] {
        stats.probes.hit("networks_shifted");
    }
    let class = "depends-on-orientation-or-place";
    let tol = 1e-3;
    for (x, y) in plain.iter().zip(&moved) {
        for v in 0..vehicles_of(sc) {
            let (s, t) = (x.get(v), y.get(v));
            let what = match (s, t) {
                (None, None) => continue,
                (Some(s), Some(t)) => {
                    stats.probes.hit("observations_compared");
                    let q = place(s.xy);
                    let d = turn(s.dir);
                    // either side of a boundary between links, or an update later
                    if s.link != t.link {
                        if s.pos.min(t.pos) < 0.01 {
                            None
                        } else {
                            Some("link")
                        }
                    } else if (s.pos - t.pos).abs() > tol {
                        Some("position")
                    } else if (s.vel - t.vel).abs() > tol {
                        Some("speed")
                    } else if (q[0] - t.xy[0]).hypot(q[1] - t.xy[1]) > tol {
                        Some("coordinates")
                    } else if (d[0] - t.dir[0]).hypot(d[1] - t.dir[1]) > tol {
                        Some("heading")
                    } else {
                        None
                    }
                }
                _ => Some("presence"),
            };
            if let Some(w) = what {
                if on_the_brink(sc, &plain, x.t)? {
                    stats.probes.hit("decided_by_rounding");
                    return Ok(stats);
                }
                return Err((bad(class, format!("{}turned by {quarter} quarters and shifted by {off:?}: at {:.4} s vehicle v{v} differs in its {w}: {} / {}", if mirror { "mirrored, " } else { "" }, x.t, describe(&s), describe(&t))), stats));
            }
        }
    }
    Ok(stats)
}

/// Whether something that happens up to a time is decided by rounding: it comes
/// out otherwise, in the same place, if all is larger by less than 1e-10.
fn on_the_brink(sc: &Scenario, plain: &[Snap], until: f64) -> Result<bool, (Violation, RunStats)> {
    for e in [-34, -36, -38, -40, -42] {
        for sign in [1.0, -1.0] {
            let k = 1.0 + sign * 2f64.powi(e);
            let grow = |p: [f64; 2]| p.map(|x| x * k);
            let mut near = sc.clone();
            for l in &mut near.net.links {
                l.curve = match l.curve {
                    Curve::Line(p) => Curve::Line(p.map(grow)),
                    Curve::Quad(p) => Curve::Quad(p.map(grow)),
                    Curve::Cubic(p) => Curve::Cubic(p.map(grow)),
                };
            }
            let (near, _) = log(&near, sc.entropy)?;
            let differs = plain.iter().zip(&near).take_while(|(x, _)| x.t <= until).any(|(x, y)| {
                (0..vehicles_of(sc)).any(|v| match (x.get(v), y.get(v)) {
                    (None, None) => false,
                    (Some(s), Some(t)) => (s.vel - t.vel).abs() > 1e-4 || s.link == t.link && (s.pos - t.pos).abs() > 1e-4,
                    _ => true,
                })
            });
            if differs {
                return Ok(true);
            }
        }
    }
    Ok(false)
}

// ---------------------------------------------------------- neighbouring lanes

/// Parallel lanes between which nobody may change; every vehicle keeps its lane.
pub fn lanes_apart(seed: u64) -> Scenario {
    let mut sc = no_randomise(scen::multi(mix(seed ^ 0x1A4E) >> 16, 0.0));
    sc.seed = seed;
    for g in &mut sc.net.groups {
        g.1 = 0;
    }
    let net = sc.net.clone();
    for op in &mut sc.program {
        if let Op::Spawn { link, dest, veh, .. } = op {
            // straight on to the end of this lane
            let mut l = *link;
            while let Some(n) = net.outs(l).first() {
                l = *n;
            }
            *dest = Some(l);
            if veh.length > 6.0 {
                veh.length = 6.0;
                veh.wheel_base = f64::min(veh.wheel_base, 1.5);
            }
        }
    }
    sc
}

pub fn neighbours(sc: &Scenario) -> RunResult {
    wrap(neighbours_(sc))
}

fn neighbours_(sc: &Scenario) -> Result<RunStats, (Violation, RunStats)> {
    let (grouped, mut stats) = log(sc, sc.entropy)?;
    let mut apart = sc.clone();
    apart.net.groups.clear();
    let (alone, _) = log(&apart, sc.entropy)?;
    let vs = vehicles_of(sc);
    // somebody actually passed somebody on the lane beside
    for w in grouped.windows(2) {
        let v: Vec<_> = w[1].iter().collect();
        for (i, a) in &v {
            for (j, b) in &v {
                if i < j && a.link != b.link && (a.xy[0] - b.xy[0]).hypot(a.xy[1] - b.xy[1]) < 6.0 {
                    stats.probes.hit("side_by_side");
                    if (a.vel - b.vel).abs() > 2.0 {
                        stats.probes.hit("passing");
                    }
                }
            }
        }
    }
    match same_runs("disturbed-by-the-next-lane", "lanes in a group / lanes apart", &grouped, &alone, 0..vs, 0, 0, 0.0, &mut stats.probes) {
        Ok(()) => Ok(stats),
        Err(v) => Err((v, stats)),
    }
}

// ---------------------------------------------------------------- right of way

/// A main road crossed by side roads that give way; everybody goes straight on.
pub fn crossroads(seed: u64) -> Scenario {
    scen::cross(seed)
}

pub fn right_of_way(sc: &Scenario) -> RunResult {
    wrap(right_of_way_(sc))
}

fn right_of_way_(sc: &Scenario) -> Result<RunStats, (Violation, RunStats)> {
    let watched = monitored(sc, |_| vec![Box::new(crate::mon::RightOfWay::default())]);
    let mut stats = watched.stats;
    if let Some(v) = watched.violation {
        return Err((v, stats));
    }
    // until somebody may have been let in from the side, the main road is as if alone
    let main: BTreeSet<usize> = sc.net.tagged("main").into_iter().collect();
    let keep: BTreeSet<usize> = sc
        .program
        .iter()
        .filter_map(|o| match o {
            Op::Spawn { v, link, .. } if main.contains(link) => Some(*v),
            _ => None,
        })
        .collect();
    let mut own = sc.clone();
    own.program.retain(|op| subject(op).0.map_or(true, |v| keep.contains(&v)));
    let until = stats.probes.1.get("side_let_in_s").map_or(f64::INFINITY, |x| -x);
    let (both, _) = log(sc, sc.entropy)?;
    let (alone, _) = log(&own, sc.entropy)?;
    let n = both.iter().take_while(|s| s.t < until).count();
    if both[..n].iter().any(|s| s.iter().any(|(v, _)| !keep.contains(&v))) {
        stats.probes.hit("main_road_with_side_waiting");
    }
    match same_runs("main-road-held-up", "with / without traffic waiting at the side", &both[..n], &alone[..n], keep.iter().copied(), 0, 0, 0.0, &mut stats.probes) {
        Ok(()) => Ok(stats),
        Err(v) => Err((v, stats)),
    }
}

// --------------------------------------------------------------- routes offered

/// Any network at all, several of them side by side at times, without traffic;
/// the program is the clock and the disturbances of one trip.
pub fn routes(seed: u64) -> Scenario {
    let r = &mut Rng::new(seed);
    let mut net = Net::default();
    for _ in 0..r.int(1, 2) {
        let s = r.u64() >> 16;
        let other = match r.below(7) {
            0 => scen::road(s).net,
            1 => scen::tree(s).net,
            2 => scen::grid_run(s, 0.0).net,
            3 | 4 => scen::multi(s, 0.0).net,
            5 => scen::give_way(s).net,
            _ => scen::all_way(s, false).net,
        };
        join(&mut net, &other);
    }
    let clock = crate::gen::Clock::any(r, 0.2);
    let mut ev = vec![];
    if r.chance(0.75) {
        for _ in 0..r.int(1, 4) {
            let t = r.f(0.5, 60.0);
            ev.push((t, Op::Freeze { v: 0, on: true }));
            ev.push((t + r.f(0.1, 10.0), Op::Freeze { v: 0, on: false }));
        }
    }
    let program = crate::gen::program(r, &clock, ev, 80.0, 4000);
    finish("routes", seed, r, net, program)
}

pub fn offered(sc: &Scenario) -> RunResult {
    wrap(offered_(sc))
}

fn offered_(sc: &Scenario) -> Result<RunStats, (Violation, RunStats)> {
    let s = sc.clone();
    isolated(sc.entropy, move || {
        let mut stats = RunStats { trace_hash: 0xcbf2_9ce4_8422_2325, ..Default::default() };
        match offered_routes(&s, &mut stats) {
            Ok(()) => Ok(stats),
            Err(v) => Err((v, stats)),
        }
    })
    .map_err(|v| (v, RunStats::default()))?
}

fn offered_routes(sc: &Scenario, stats: &mut RunStats) -> Result<(), Violation> {
    let net = &sc.net;
    let w = World::build(net);
    let n = net.links.len();
    let said: Vec<(usize, usize)> = w
        .sim
        .all_routes()
        .map(|(a, b)| (w.link_idx.get(&a).copied().unwrap_or(n), w.link_idx.get(&b).copied().unwrap_or(n)))
        .collect();
    let ends: Vec<(usize, usize)> = {
        let srcs = (0..n).filter(|l| net.ins(*l).is_empty());
        srcs.flat_map(|s| (0..n).filter(|l| net.outs(*l).is_empty()).map(move |d| (s, d))).collect()
    };
    for (i, x) in said.iter().enumerate() {
        if said[..i].contains(x) {
            return Err(bad("offered-twice", format!("the route from link {} to {} is listed twice", x.0, x.1)));
        }
        if !ends.contains(x) {
            return Err(bad("no-such-ends", format!("the route from link {} to {} does not lead from an entrance to an exit", x.0, x.1)));
        }
        fnv(&mut stats.trace_hash, (x.0 * n + x.1) as u64);
        stats.probes.hit("routes_listed");
    }
    // drive some of them, and try some that are not on offer
    let mut r = Rng::new(sc.seed ^ 0x0FFE);
    let mut order = ends.clone();
    r.shuffle(&mut order);
    let (on, off): (Vec<_>, Vec<_>) = order.into_iter().partition(|x| said.contains(x));
    for (src, dst) in on.into_iter().take(6).chain(off.into_iter().take(6)) {
        let offered = said.contains(&(src, dst));
        let gone = drive(sc, src, dst, stats)?;
        stats.probes.hit(if offered { "offered_driven" } else { "not_offered_tried" });
        if offered && !gone {
            return Err(bad("dead-route", format!("a vehicle from link {src} never gets to link {dst}, though that route is listed")));
        }
        if !offered && gone {
            return Err(bad("route-not-listed", format!("a vehicle gets from link {src} to link {dst}, but that route is not listed")));
        }
    }
    Ok(())
}

/// Sends a vehicle from `src` to `dst`; whether it arrived.
fn drive(sc: &Scenario, src: usize, dst: usize, stats: &mut RunStats) -> Result<bool, Violation> {
    let mut w = World::build(&sc.net);
    let mut cur = w.snap();
    let veh = VehSpec { width: 1.8, length: 4.5, wheel_base: 1.3, headway: 1.5, max_acc: 2.0, comf_dec: 2.0 };
    w.apply(&Op::Spawn { v: 0, veh, link: src, dest: Some(dst) }, &cur);
    cur = w.snap();
    let enough = 120.0 + 1.5 * sc.net.links.iter().enumerate().map(|(i, l)| w.len[i] / l.limit).sum::<f64>();
    let mut ops = sc.program.iter();
    let mut left = (0.2, 0);
    while w.time < enough {
        if left.1 == 0 {
            match ops.next() {
                Some(Op::Step { dt, n }) => left = (*dt, *n),
                Some(op) => {
                    if let (true, Op::Freeze { on: true, .. }) = (w.apply(op, &cur), op) {
                        stats.probes.hit("fault_freeze");
                    }
                    cur = w.snap();
                }
                None => {
                    w.apply(&Op::Freeze { v: 0, on: false }, &cur);
                    cur = w.snap();
                    left = (0.2, usize::MAX)
                }
            }
            continue;
        }
        left.1 -= 1;
        w.sim.step(left.0);
        w.time += left.0;
        let next = w.snap();
        stats.steps += 1;
        stats.sim_time += left.0;
        hash_snap(&mut stats.trace_hash, &next);
        if next.get(0).is_none() {
            let last = cur.get(0).map(|x| x.link);
            if last != Some(dst) {
                return Err(bad("left-elsewhere", format!("a vehicle from link {src} bound for {dst} left from {last:?}")));
            }
            return Ok(true);
        }
        cur = next;
        // whoever stands for this long stands for good
        if w.time > enough.min(200.0) && cur.get(0).map_or(false, |x| x.vel == 0.0 && !x.frozen) && ops.len() == 0 {
            return Ok(false);
        }
    }
    Ok(false)
}
