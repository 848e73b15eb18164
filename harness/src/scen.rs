//! Scenario families: a network, traffic on it, a clock, and faults.

use crate::fam::*;
use crate::gen::*;
use crate::geom::*;
use crate::prng::Rng;
use crate::spec::*;
use std::f64::consts::PI;

/// Longest program, in steps; runs on a fine clock may end early.
const STEPS: usize = 16000;

/// A quarter of the runs of every family is free of faults.
fn faults(r: &mut Rng, base: &Faults) -> Faults {
    if r.chance(0.25) {
        Faults::default()
    } else {
        Faults::swarm(r, base)
    }
}

/// How large a network and how much traffic a run has.
#[derive(Clone, Copy, PartialEq)]
enum Size {
    Usual,
    /// Links that long vehicles stretch over several of.
    Short,
    Large,
    /// The usual, on a clock with steps of up to a second.
    Coarse,
}

impl Size {
    fn any(r: &mut Rng) -> Size {
        match r.below(40) {
            0 => Size::Large,
            1..=4 => Size::Short,
            _ => Size::Usual,
        }
    }

    fn roads(self, links: usize) -> RoadOpts {
        let o = RoadOpts { max_links: links, ..Default::default() };
        match self {
            Size::Usual => o,
            Size::Short => RoadOpts { min_len: 7.0, max_len: 60.0, max_links: 2 * links, ..o },
            Size::Large => RoadOpts { max_len: 800.0, max_links: 3 * links, ..o },
            Size::Coarse => RoadOpts { min_len: 60.0, ..o },
        }
    }

    fn vehicles(self, r: &mut Rng) -> usize {
        match self {
            Size::Large => r.int(40, 120),
            _ => r.int(2, 22),
        }
    }

    /// When the last vehicle is added and the last fault injected.
    fn end(self, r: &mut Rng) -> f64 {
        match self {
            Size::Large => r.f(150.0, 300.0),
            _ => r.f(30.0, 100.0),
        }
    }

    fn clock(self, r: &mut Rng) -> Clock {
        match self {
            Size::Large => Clock::Fixed(*r.pick(&[0.06, 0.1, 0.15, 0.2])),
            Size::Coarse => Clock::any(r, 1.0),
            _ => Clock::any(r, 0.2),
        }
    }
}

/// A road on a coarse clock.
pub fn coarse(seed: u64) -> Scenario {
    let r = &mut Rng::new(seed);
    let size = Size::Coarse;
    let (net, src, leaves) = road_tree(r, &size.roads(6), 0.0);
    let f = faults(r, &ROAD_FAULTS);
    let tr = Traffic {
        sources: vec![src],
        dests: vec![leaves],
        vehicles: size.vehicles(r),
        headway: r.f(1.5, 6.0),
        no_dest: 0.0,
    };
    let end = size.end(r);
    let ev = traffic(r, &net, &tr, &f, end);
    let clock = size.clock(r);
    let p = program(r, &clock, ev, end + 100.0, STEPS);
    finish("coarse", seed, r, net, p)
}

pub const ROAD_FAULTS: Faults = Faults { freeze: 8.0, remove: 4.0, redest: 0.0, lane_change: 0.0, control: 0.0, randomise: 3.0 };

/// A single-lane road, dense traffic.
pub fn road(seed: u64) -> Scenario {
    road_with(seed, &ROAD_FAULTS, 150.0)
}

pub fn road_with(seed: u64, base: &Faults, tail: f64) -> Scenario {
    let r = &mut Rng::new(seed);
    let size = Size::any(r);
    let (mut net, src, leaves) = road_tree(r, &size.roads(7), 0.0);
    let f = faults(r, base);
    let tr = Traffic {
        sources: vec![src],
        dests: vec![leaves],
        vehicles: size.vehicles(r),
        headway: r.f(1.5, 6.0),
        no_dest: 0.0,
    };
    let end = size.end(r);
    let ev = traffic(r, &net, &tr, &f, end);
    let clock = size.clock(r);
    let tail = tail.max(60.0 + 1.3 * crossing_time(&net));
    let p = program(r, &clock, ev, end + tail + 1.0, STEPS);
    net.tags.push(("tail".into(), tail as usize));
    finish("road", seed, r, net, p)
}

/// The time it takes to drive all links one after another at their limits.
fn crossing_time(net: &Net) -> f64 {
    net.links.iter().map(|l| Poly::new(&l.curve).len() / l.limit).sum()
}

/// A road that branches.
pub fn tree(seed: u64) -> Scenario {
    tree_with(seed, 0.0, 0.0)
}

pub fn tree_with(seed: u64, redest: f64, no_dest: f64) -> Scenario {
    let r = &mut Rng::new(seed);
    let size = Size::any(r);
    let (mut net, src, leaves) = road_tree(r, &size.roads(4), 0.8);
    let f = faults(r, &Faults { redest, ..ROAD_FAULTS });
    let mut to = leaves;
    if redest > 0.0 && r.chance(0.4) {
        // somewhere on the way
        to.push(r.below(net.links.len()));
    }
    let tr = Traffic {
        sources: vec![src],
        dests: vec![to],
        vehicles: size.vehicles(r),
        headway: r.f(1.5, 6.0),
        no_dest: if r.chance(0.3) { no_dest } else { 0.0 },
    };
    let end = size.end(r);
    let mut ev = traffic(r, &net, &tr, &f, end);
    let last = net.links.len() - 1;
    if redest > 0.0 && tr.dests[0].iter().any(|l| *l < last) && r.chance(0.2) {
        // the last branch is built while there is traffic
        net.late = Some(last);
        ev.push((r.f(1.0, 40.0), Op::Grow));
    }
    let clock = size.clock(r);
    let tail = f64::max(180.0, 60.0 + 1.3 * crossing_time(&net));
    let p = program(r, &clock, ev, end + tail + 1.0, STEPS);
    net.tags.push(("tail".into(), tail as usize));
    finish("tree", seed, r, net, p)
}

/// A grid of one-way streets with many routes; light traffic.
pub fn grid_run(seed: u64, redest: f64) -> Scenario {
    grid_with(seed, redest, 0.0)
}

fn grid_with(seed: u64, redest: f64, gates: f64) -> Scenario {
    let r = &mut Rng::new(seed);
    let (mut net, srcs, dsts) = grid(r);
    let f = faults(r, &Faults { freeze: 3.0, remove: 2.0, randomise: 2.0, redest, ..Default::default() });
    let dests: Vec<Vec<usize>> = srcs
        .iter()
        .map(|s| {
            let ok = reachable(&net, *s);
            let mut to: Vec<usize> = dsts.iter().copied().filter(|d| ok[*d]).collect();
            for _ in 0..if r.chance(0.4) { r.int(1, 3) } else { 0 } {
                // somewhere on the way
                to.extend(Some(r.below(net.links.len())).filter(|d| ok[*d] && d != s));
            }
            to
        })
        .collect();
    let tr = Traffic {
        sources: srcs,
        dests,
        vehicles: r.int(1, 8),
        headway: r.f(5.0, 20.0),
        no_dest: 0.0,
    };
    let end = r.f(30.0, 100.0);
    let mut ev = traffic(r, &net, &tr, &f, end);
    if gates > 0.0 {
        for l in (0..net.links.len()).filter(|l| !tr.sources.contains(l)) {
            if r.chance(gates) {
                if r.chance(0.25) {
                    let light = one_light(r, l);
                    net.lights.push(light);
                } else {
                    gate(r, &mut net, &mut ev, l, end);
                }
            }
        }
    }
    let clock = Clock::any(r, 0.2);
    let p = program(r, &clock, ev, end + 250.0 + 1.0, STEPS);
    net.tags.push(("tail".into(), 250.0 as usize));
    finish("grid", seed, r, net, p)
}

/// A carriageway of several lanes.
pub fn multi(seed: u64, forced: f64) -> Scenario {
    let r = &mut Rng::new(seed);
    let mut m = multilane(r);
    let f = faults(r, &Faults { freeze: 3.0, remove: 2.0, randomise: 2.0, lane_change: forced, ..Default::default() });
    let (sources, dests) = m.lanes[0]
        .iter()
        .map(|s| {
            let ok = reachable(&m.net, *s);
            (*s, m.exits.iter().copied().filter(|d| ok[*d]).collect())
        })
        .unzip();
    let tr = Traffic {
        sources,
        dests,
        vehicles: if r.chance(0.04) { r.int(15, 40) } else { r.int(1, 12) },
        headway: r.f(3.0, 10.0),
        no_dest: 0.0,
    };
    let end = r.f(30.0, 100.0);
    let ev = traffic(r, &m.net, &tr, &f, end);
    let clock = Clock::any(r, 0.2);
    let p = program(r, &clock, ev, end + 200.0 + 1.0, STEPS);
    m.net.tags.push(("tail".into(), 200.0 as usize));
    finish("multi", seed, r, m.net, p)
}

/// Cars on a carriageway who are made to change lanes, and halted meanwhile.
pub fn swerve(seed: u64) -> Scenario {
    let r = &mut Rng::new(seed);
    let mut net = Net::default();
    let n = r.int(2, 4);
    let limit = r.f(8.0, 25.0);
    let cur = Cur::new(0.0, 0.0, r.f(0.0, 6.0));
    let (bend, len) = (r.chance(0.4), r.f(400.0, 900.0));
    let ang = r.f(0.2, 0.6) * if r.chance(0.5) { 1.0 } else { -1.0 };
    // in one piece or in several
    let pieces = if r.chance(0.5) { 1 } else { r.int(2, 5) };
    let mut rows: Vec<Vec<usize>> = vec![];
    let mut next = cur;
    for k in 0..pieces {
        let (len, ang) = (len / pieces as f64, ang / pieces as f64);
        let from = next;
        let mut row = vec![];
        for i in 0..n {
            let off = ((n - 1) as f64 * 0.5 - i as f64) * 3.5;
            let (cv, nx) = if bend { from.arc(len / ang.abs(), ang, off) } else { from.line(len, off) };
            next = nx;
            let l = net.link(cv, limit);
            if k > 0 {
                net.conn(rows[k - 1][i], l);
            }
            row.push(l);
        }
        net.groups.push((row.clone(), lc_mask(n, |_, _| true)));
        rows.push(row);
    }
    let exits: Vec<_> = (0..n)
        .map(|i| {
            let (cv, _) = next.line(250.0, ((n - 1) as f64 * 0.5 - i as f64) * 3.5);
            let e = net.link(cv, limit);
            net.conn(rows[pieces - 1][i], e);
            e
        })
        .collect();
    // changes that are not over yet go on here, but none begins
    net.groups.push((exits.clone(), 0));
    let f = faults(r, &Faults { freeze: 2.0, remove: 1.0, randomise: 3.0, ..Default::default() });
    let tr = Traffic {
        sources: rows[0].clone(),
        dests: exits.iter().map(|e| vec![*e]).collect(),
        vehicles: r.int(2, 10),
        headway: r.f(2.0, 8.0),
        no_dest: 0.0,
    };
    let end = r.f(30.0, 80.0);
    let mut ev = traffic(r, &net, &tr, &f, end);
    cars_only(r, &mut ev);
    let spawned: Vec<_> = ev
        .iter()
        .filter_map(|(t, o)| match o {
            Op::Spawn { v, link, veh, .. } => Some((*t, *v, *link, veh.max_acc)),
            _ => None,
        })
        .collect();
    // the fewer change lanes, the more of them have room
    let rare = r.f(0.4, 0.85);
    // at times they do so where one stretch ends and the next begins
    let seam = r.chance(0.5).then(|| len / pieces as f64 * r.int(1, pieces) as f64);
    for (t, v, link, acc) in spawned {
        if r.chance(rare) {
            continue;
        }
        let i = rows[0].iter().position(|l| *l == link).unwrap();
        let j = if i == 0 || i + 1 < n && r.chance(0.5) { i + 1 } else { i - 1 };
        let t = t + match seam {
            Some(s) => (s + r.f(-45.0, 25.0)) / limit + 0.6 * limit / acc,
            None => r.f(3.0, 0.8 * len / limit + 6.0),
        };
        let dist = r.f(20.0, 60.0);
        ev.push((t, Op::Dest { v, link: exits[j] }));
        // it is on one of these
        for row in &rows {
            ev.push((t, Op::LaneChange { v, link: row[j], dist }));
        }
        if r.chance(0.8) {
            let t = t + r.f(0.1, 4.0);
            ev.push((t, Op::Freeze { v, on: true }));
            ev.push((t + r.f(2.0, 40.0), Op::Freeze { v, on: false }));
        }
    }
    let clock = Clock::any(r, 0.2);
    let p = program(r, &clock, ev, end + 150.0, STEPS);
    finish("swerve", seed, r, net, p)
}

/// A junction with lights, one phase per arm.
pub fn signal(seed: u64) -> Scenario {
    signal_with(seed, false)
}

pub fn signal_with(seed: u64, cars: bool) -> Scenario {
    let r = &mut Rng::new(seed);
    let arms = r.int(3, 4);
    let mut j = junction(r, arms, true, true);
    let l = j.split_light(r, 4.0);
    j.net.lights.push(l);
    let f = faults(r, &Faults { freeze: 4.0, remove: 3.0, randomise: 2.0, ..Default::default() });
    let n = r.int(2, 24);
    let h = r.f(3.0, 10.0);
    let tr = j.traffic(r, n, h);
    let end = r.f(60.0, 120.0);
    let mut ev = traffic(r, &j.net, &tr, &f, end);
    if cars {
        cars_only(r, &mut ev);
    }
    let clock = Clock::any(r, 0.2);
    let p = program(r, &clock, ev, end + 300.0 + 1.0, STEPS);
    j.net.tags.push(("tail".into(), 300.0 as usize));
    finish("signal", seed, r, j.net, p)
}

/// A road with lights and gates along it, close together or far apart.
pub fn corridor(seed: u64) -> Scenario {
    let r = &mut Rng::new(seed);
    let mut net = Net::default();
    let o = RoadOpts { min_links: 2, max_links: 6, min_len: 25.0, max_len: 180.0, limits: (7.0, 20.0), ..Default::default() };
    let (ids, _) = chain(r, &mut net, Cur::new(0.0, 0.0, 0.0), &o);
    let f = faults(r, &Faults { freeze: 4.0, remove: 3.0, randomise: 3.0, ..Default::default() });
    let tr = Traffic {
        sources: vec![ids[0]],
        dests: vec![vec![*ids.last().unwrap()]],
        vehicles: r.int(2, 18),
        headway: r.f(2.0, 8.0),
        no_dest: 0.0,
    };
    let end = r.f(60.0, 150.0);
    let mut ev = traffic(r, &net, &tr, &f, end);
    for l in &ids[1..] {
        match r.below(4) {
            0 => {
                let light = one_light(r, *l);
                if r.chance(0.7) {
                    net.lights.push(light);
                } else {
                    ev.push((r.f(1.0, 30.0), Op::AddLight { light }));
                }
            }
            1 | 2 => gate(r, &mut net, &mut ev, *l, end),
            _ => {}
        }
    }
    let clock = Clock::any(r, 0.2);
    let p = program(r, &clock, ev, end + 400.0 + 1.0, STEPS);
    net.tags.push(("tail".into(), 400.0 as usize));
    finish("corridor", seed, r, net, p)
}

/// A light that shows the one link green and red by turns.
fn one_light(r: &mut Rng, l: usize) -> LightSpec {
    LightSpec {
        movements: vec![
            MovementSpec { conflict: 2, amber: r.f(0.5, 4.0), red: r.f(0.2, 3.0), links: vec![l] },
            MovementSpec { conflict: 1, amber: r.f(0.5, 4.0), red: r.f(0.2, 3.0), links: vec![] },
        ],
        phases: vec![(1, r.f(3.0, 20.0)), (2, r.f(3.0, 25.0))],
    }
}

/// A gate that is opened and closed, and left open at the end.
fn gate(r: &mut Rng, net: &mut Net, ev: &mut Vec<(f64, Op)>, l: usize, end: f64) {
    let mut t = 0.0;
    let mut open = r.chance(0.5);
    if !open {
        net.controls.push((l, Control::Closed));
    }
    while t < end {
        t += if r.chance(0.4) { r.f(0.1, 3.0) } else { r.f(2.0, 30.0) };
        open = !open;
        if t < end {
            ev.push((t, Op::Control { link: l, control: if open { Control::Open } else { Control::Closed } }));
        }
    }
    ev.push((end, Op::Control { link: l, control: Control::Open }));
}

/// A grid of streets with gates at some of them.
pub fn gated_grid(seed: u64) -> Scenario {
    grid_with(seed, 4.0, 0.4)
}

/// Lights alone: no traffic, any programme.
pub fn lights(seed: u64) -> Scenario {
    let r = &mut Rng::new(seed);
    let mut net = Net::default();
    for _ in 0..r.int(1, 3) {
        let l = generic_light(r);
        net.lights.push(l);
    }
    let mut ev = vec![];
    if r.chance(0.3) {
        let l = generic_light(r);
        ev.push((r.f(0.5, 20.0), Op::AddLight { light: l }));
    }
    let max = if r.chance(0.2) { 1.0 } else { 0.2 };
    let clock = Clock::any(r, max);
    let end = r.f(60.0, 300.0);
    let p = program(r, &clock, ev, end, STEPS);
    finish("lights", seed, r, net, p)
}

fn generic_light(r: &mut Rng) -> LightSpec {
    let n = match r.below(100) {
        0..=3 => r.int(31, 64),
        4..=15 => r.int(7, 30),
        _ => 6,
    };
    random_light(r, &[], n)
}

/// A lone vehicle (or a few, one after another) on a road with speed limits.
pub fn lone(seed: u64) -> Scenario {
    let r = &mut Rng::new(seed);
    let mut net = Net::default();
    let o = RoadOpts { min_links: 1, max_links: 6, min_len: 60.0, max_len: 400.0, limits: (8.0, 30.0), ..Default::default() };
    let start = Cur::new(r.f(-500.0, 500.0), r.f(-500.0, 500.0), r.f(0.0, 6.0));
    let (ids, _) = chain(r, &mut net, start, &o);
    let mut ev = vec![];
    let veh = vehicle(r);
    ev.push((0.0, Op::Spawn { v: 0, veh, link: ids[0], dest: Some(*ids.last().unwrap()) }));
    let clock = Clock::any(r, 0.2);
    let total: f64 = 6.0 * 400.0 / 8.0;
    let p = program(r, &clock, ev, total + 60.0, STEPS);
    finish("lone", seed, r, net, p)
}

/// Vehicles of different pace one behind another on a long road.
pub fn platoon(seed: u64) -> Scenario {
    let r = &mut Rng::new(seed);
    let mut net = Net::default();
    let o = RoadOpts { min_links: 3, max_links: 8, min_len: 150.0, max_len: 700.0, limits: (8.0, 30.0), same_limit: true, ..Default::default() };
    let (ids, _) = chain(r, &mut net, Cur::new(0.0, 0.0, 0.0), &o);
    let f = if r.chance(0.5) { Faults::default() } else { Faults { freeze: r.f(0.5, 3.0), remove: r.f(0.0, 2.0), ..Default::default() } };
    let tr = Traffic {
        sources: vec![ids[0]],
        dests: vec![vec![*ids.last().unwrap()]],
        vehicles: r.int(2, 9),
        headway: r.f(1.5, 8.0),
        no_dest: 0.0,
    };
    let end = r.f(40.0, 150.0);
    let mut ev = traffic(r, &net, &tr, &f, end);
    if r.chance(0.8) {
        let stddev = *r.pick(&[0.1, 0.2, 0.5]);
        ev.push((r.f(5.0, 30.0), Op::Randomise { stddev }));
    }
    let clock = Clock::any(r, 0.2);
    let p = program(r, &clock, ev, end + 200.0, STEPS);
    finish("platoon", seed, r, net, p)
}

/// A road with stop signs along it, and the same in front of a junction.
pub fn stops(seed: u64) -> Scenario {
    let r = &mut Rng::new(seed);
    let mut net = Net::default();
    let o = RoadOpts { min_links: 2, max_links: 5, min_len: 30.0, max_len: 160.0, limits: (7.0, 18.0), ..Default::default() };
    let (ids, _) = chain(r, &mut net, Cur::new(0.0, 0.0, 0.0), &o);
    for l in &ids[1..] {
        if r.chance(0.6) {
            net.controls.push((*l, Control::Yield { distance: r.f(3.5, 15.0), must_stop: r.chance(0.8), priority: 0 }));
        }
    }
    let f = faults(r, &Faults { freeze: 4.0, remove: 3.0, randomise: 3.0, ..Default::default() });
    let tr = Traffic {
        sources: vec![ids[0]],
        dests: vec![vec![*ids.last().unwrap()]],
        vehicles: r.int(1, 14),
        headway: r.f(2.0, 10.0),
        no_dest: 0.0,
    };
    let end = r.f(40.0, 100.0);
    let ev = traffic(r, &net, &tr, &f, end);
    let clock = Clock::any(r, 0.2);
    let p = program(r, &clock, ev, end + 350.0 + 1.0, STEPS);
    net.tags.push(("tail".into(), 350.0 as usize));
    finish("stops", seed, r, net, p)
}

/// A vehicle of ordinary size, as junctions are laid out for.
fn car(r: &mut Rng) -> VehSpec {
    let mut v = vehicle(r);
    v.width = v.width.min(2.0);
    if v.length > 5.0 {
        v.length = r.f(3.0, 5.0);
        v.wheel_base = r.f(0.8, 1.5);
    }
    v
}

fn cars_only(r: &mut Rng, ev: &mut [(f64, Op)]) {
    for (_, op) in ev.iter_mut() {
        if let Op::Spawn { veh, .. } = op {
            if veh.length > 5.0 || veh.width > 2.0 {
                *veh = car(r);
            }
        }
    }
}

/// Side roads that give way to a main road.
pub fn give_way(seed: u64) -> Scenario {
    give_way_with(seed, false)
}

/// The same, while the side roads are closed and opened.
pub fn gated(seed: u64) -> Scenario {
    give_way_with(seed, true)
}

fn give_way_with(seed: u64, gates: bool) -> Scenario {
    let r = &mut Rng::new(seed);
    let arms = r.int(3, 4);
    let mut j = junction(r, arms, true, true);
    for i in (0..arms).step_by(2) {
        if r.chance(0.3) {
            j.cut(r, i);
        }
    }
    // the main road has no left turns; both sides of it are open
    let ctl: Vec<Control> = (0..arms)
        .map(|i| {
            if i % 2 == 0 {
                Control::Open
            } else {
                Control::Yield { distance: r.f(4.0, 14.0), must_stop: r.chance(0.4), priority: *r.pick(&[0, 0, -1, 3]) }
            }
        })
        .collect();
    let gone: Vec<usize> = j.moves.iter().filter(|m| m.0 % 2 == 0 && (m.0 + 3) % 4 == m.1).map(|m| m.2).collect();
    j.net.conns.retain(|(a, b)| !gone.contains(a) && !gone.contains(b));
    j.net.conv.retain(|(a, b)| !gone.contains(a) && !gone.contains(b));
    j.moves.retain(|m| !gone.contains(&m.2));
    for (a, _, l) in &j.moves {
        if ctl[*a] != Control::Open {
            j.net.controls.push((*l, ctl[*a]));
        }
    }
    let f = faults(r, &Faults { freeze: 3.0, remove: 3.0, randomise: 2.0, ..Default::default() });
    let n = r.int(2, 24);
    let h = r.f(3.0, 12.0);
    let tr = j.traffic(r, n, h);
    let end = r.f(60.0, 120.0);
    let mut ev = traffic(r, &j.net, &tr, &f, end);
    cars_only(r, &mut ev);
    if gates {
        for arm in (0..arms).filter(|a| ctl[*a] != Control::Open) {
            let mut t = r.f(5.0, 30.0);
            while t < end {
                let d = if r.chance(0.4) { r.f(0.2, 3.0) } else { r.f(3.0, 30.0) };
                for m in j.moves.iter().filter(|m| m.0 == arm) {
                    ev.push((t, Op::Control { link: m.2, control: Control::Closed }));
                    ev.push((f64::min(t + d, end), Op::Control { link: m.2, control: ctl[arm] }));
                }
                t += d + r.f(1.0, 20.0);
            }
        }
    }
    let clock = Clock::any(r, 0.2);
    let p = program(r, &clock, ev, end + 300.0 + 1.0, STEPS);
    j.net.tags.push(("tail".into(), 300.0 as usize));
    finish("giveway", seed, r, j.net, p)
}

/// A roundabout: those on it have right of way, those coming in give way.
pub fn roundabout(seed: u64) -> Scenario {
    let r = &mut Rng::new(seed);
    let arms = r.int(3, 5);
    let radius = arms as f64 * r.f(7.0, 9.0);
    let (limit, ring) = (r.f(8.0, 16.0), r.f(6.0, 10.0));
    let out = radius + r.f(14.0, 20.0);
    let mut net = Net::default();
    // half the angle between the way off and the way on
    let gap = r.f(8.0, 9.0) / radius;
    let at = |a: f64| [radius * a.cos(), radius * a.sin()];
    let along = |a: f64| [-a.sin(), a.cos()];
    let arc = |a: f64, b: f64| {
        let k = 4.0 / 3.0 * ((b - a) / 4.0).tan() * radius;
        Curve::Cubic([at(a), add(at(a), mul(along(a), k)), sub(at(b), mul(along(b), k)), at(b)])
    };
    let (mut src, mut exits, mut on, mut past, mut off) = (vec![], vec![], vec![], vec![], vec![]);
    for i in 0..arms {
        let a = 2.0 * PI * i as f64 / arms as f64;
        let u = [a.cos(), a.sin()];
        let left = along(a);
        let (p, q) = (add(mul(u, out), mul(left, 2.0)), add(mul(u, out), mul(left, -2.0)));
        let (e, m) = (a - gap, a + gap);
        let k = 0.4 * (out - radius);
        let (la, le) = (r.f(60.0, 160.0), r.f(50.0, 120.0));
        let s = net.link(Curve::Line([add(p, mul(u, la)), p]), limit);
        let i = net.link(Curve::Cubic([p, sub(p, mul(u, k)), sub(at(m), mul(along(m), k)), at(m)]), ring);
        let o = net.link(Curve::Cubic([at(e), add(at(e), mul(along(e), k)), sub(q, mul(u, k)), q]), ring);
        let x = net.link(Curve::Line([q, add(q, mul(u, le))]), limit);
        let t = net.link(arc(e, m), ring);
        net.conn(s, i);
        net.conn(o, x);
        net.conv.push((t, i));
        net.controls.push((i, Control::Yield { distance: r.f(4.0, 14.0), must_stop: r.chance(0.25), priority: *r.pick(&[0, 0, -1, 3]) }));
        src.push(s);
        exits.push(x);
        on.push(i);
        past.push(t);
        off.push(o);
    }
    for i in 0..arms {
        let j = (i + 1) % arms;
        let a = 2.0 * PI * i as f64 / arms as f64;
        let b = net.link(arc(a + gap, a + 2.0 * PI / arms as f64 - gap), ring);
        net.conn(on[i], b);
        net.conn(past[i], b);
        net.conn(b, past[j]);
        net.conn(b, off[j]);
    }
    let f = faults(r, &Faults { freeze: 3.0, remove: 3.0, randomise: 2.0, ..Default::default() });
    let dests = vec![exits.clone(); arms];
    let tr = Traffic { sources: src, dests, vehicles: r.int(2, 30), headway: r.f(3.0, 12.0), no_dest: 0.0 };
    let end = r.f(60.0, 120.0);
    let mut ev = traffic(r, &net, &tr, &f, end);
    cars_only(r, &mut ev);
    let clock = Clock::any(r, 0.2);
    let p = program(r, &clock, ev, end + 300.0 + 1.0, STEPS);
    net.tags.push(("tail".into(), 300));
    finish("roundabout", seed, r, net, p)
}

/// A junction where every arm has to stop; identical vehicles.
pub fn all_way(seed: u64, same: bool) -> Scenario {
    let r = &mut Rng::new(seed);
    let arms = r.int(3, 4);
    let mut j = junction(r, arms, true, true);
    let d = r.f(4.0, 12.0);
    for (_, _, l) in &j.moves {
        j.net.controls.push((*l, Control::Yield { distance: d, must_stop: true, priority: 0 }));
    }
    let f = faults(r, &Faults { freeze: 2.0, remove: 2.0, ..Default::default() });
    let n = r.int(2, 20);
    let h = r.f(3.0, 14.0);
    let tr = j.traffic(r, n, h);
    let end = r.f(60.0, 120.0);
    let mut ev = traffic(r, &j.net, &tr, &f, end);
    cars_only(r, &mut ev);
    if same {
        let one = car(r);
        for (_, op) in ev.iter_mut() {
            if let Op::Spawn { veh, .. } = op {
                *veh = one;
            }
        }
    }
    let clock = Clock::any(r, 0.2);
    let p = program(r, &clock, ev, end + 300.0 + 1.0, STEPS);
    j.net.tags.push(("tail".into(), 300.0 as usize));
    finish("allway", seed, r, j.net, p)
}

/// A main road that is crossed by side roads which give way.
pub fn cross(seed: u64) -> Scenario {
    let r = &mut Rng::new(seed);
    let mut j = junction(r, 4, false, true);
    for i in [0, 2] {
        if r.chance(0.4) {
            j.cut(r, i);
        }
    }
    // the main road is open, or merely has the higher priority
    let prio = r.chance(0.3).then(|| Control::Yield { distance: r.f(6.0, 14.0), must_stop: false, priority: *r.pick(&[1, 2, 5]) });
    let shut = r.chance(0.4).then(|| r.f(10.0, 60.0));
    let mut ev2 = vec![];
    for (a, _, l) in &j.moves {
        j.net.tags.push(("move".into(), *l));
        if a % 2 == 1 {
            let k = Control::Yield { distance: r.f(4.0, 14.0), must_stop: r.chance(0.4), priority: 0 };
            match shut {
                Some(t) => {
                    j.net.controls.push((*l, Control::Closed));
                    ev2.push((t, Op::Control { link: *l, control: k }));
                }
                None => j.net.controls.push((*l, k)),
            }
        } else if let Some(k) = prio {
            j.net.controls.push((*l, k));
        }
    }
    for i in [0, 2] {
        if j.src[i] == j.approach[i] && r.chance(0.6) {
            // two roads come together not far from the junction; traffic is on one of them
            let ap = j.approach[i];
            let Curve::Line([a, b]) = j.net.links[ap].curve else { unreachable!() };
            let d = unit(sub(b, a));
            let q = sub(b, mul(d, r.f(15.0, 60.0)));
            j.net.links[ap].curve = Curve::Line([q, b]);
            let limit = j.net.links[ap].limit;
            let mut feeders = vec![];
            for k in 0..2 {
                let ang = if k == 0 { 0.0 } else { r.f(0.2, 0.5) };
                let e = [d[0] * f64::cos(ang) - d[1] * f64::sin(ang), d[0] * f64::sin(ang) + d[1] * f64::cos(ang)];
                let f = j.net.link(Curve::Line([sub(q, mul(e, r.f(60.0, 150.0))), q]), limit);
                j.net.conn(f, ap);
                feeders.push(f);
            }
            j.src[i] = *r.pick(&feeders);
        }
        j.net.tags.push(("main".into(), j.src[i]));
    }
    let f = faults(r, &Faults { freeze: 2.0, remove: 3.0, ..Default::default() });
    let n = r.int(2, 24);
    let h = r.f(3.0, 12.0);
    let mut tr = j.traffic(r, n, h);
    for i in [0, 2] {
        if r.chance(0.5) {
            // a slip road leaves the main road before the crossing
            let Curve::Line([a, b]) = j.net.links[j.approach[i]].curve else { unreachable!() };
            let d = sub(b, a);
            let c = Cur::new(b[0], b[1], d[1].atan2(d[0]));
            let (cv, c2) = c.arc(r.f(8.0, 12.0), -1.2, 0.0);
            let slip = j.net.link(cv, r.f(6.0, 10.0));
            let (cv, _) = c2.line(r.f(20.0, 60.0), 0.0);
            let off = j.net.link(cv, 13.9);
            j.net.conn(j.approach[i], slip);
            j.net.conn(slip, off);
            j.net.tags.push(("slip".into(), slip));
            tr.dests[i].push(off);
        }
        if j.src[i] != j.approach[i] && r.chance(0.3) {
            // some end their trip before the crossing
            tr.dests[i].push(j.approach[i]);
        }
    }
    let end = r.f(60.0, 120.0);
    let mut ev = traffic(r, &j.net, &tr, &f, end);
    ev.extend(ev2);
    cars_only(r, &mut ev);
    let clock = Clock::any(r, 0.2);
    let p = program(r, &clock, ev, end + 100.0, STEPS);
    finish("cross", seed, r, j.net, p)
}

/// Many long roads with a vehicle on each, whose speeds are randomised.
pub fn cruise(seed: u64) -> Scenario {
    let r = &mut Rng::new(seed);
    let mut net = Net::default();
    let n = r.int(6, 30);
    let rounds = r.int(1, 6);
    let gap = r.f(45.0, 55.0);
    let end = 10.0 + (rounds as f64 + 1.0) * gap;
    let mut ev = vec![];
    for v in 0..n {
        let limit = r.f(7.0, 14.0);
        let y = 10.0 * v as f64;
        let (mut x, mut lim, mut l) = (0.0, limit, usize::MAX);
        let k = if r.chance(0.4) { r.int(2, 3) } else { 1 };
        let first = net.links.len();
        for i in 0..k {
            let len = if i + 1 == k { 1.3 * lim * end } else { lim * r.f(60.0, 120.0) };
            let m = net.link(Curve::Line([[x, y], [x + len, y]]), lim);
            if i > 0 {
                net.conn(l, m);
            }
            l = m;
            x += len;
            lim = (lim * r.f(0.6, 1.2)).clamp(5.0, 14.0);
        }
        let t = if r.chance(0.15) { r.f(0.0, end - 60.0) } else { r.f(0.0, 3.0) };
        ev.push((t, Op::Spawn { v, veh: vehicle(r), link: first, dest: Some(l) }));
        if r.chance(0.05) {
            let t = r.f(1.0, end - 1.0);
            ev.push((t, Op::Freeze { v, on: true }));
            ev.push((t + r.f(0.1, 20.0), Op::Freeze { v, on: false }));
        }
        if r.chance(0.05) {
            ev.push((r.f(1.0, end - 1.0), Op::Remove { v }));
        }
    }
    let main = *r.pick(&[0.03, 0.05, 0.1, 0.2]);
    for k in 0..rounds {
        let sd = if r.chance(0.25) { *r.pick(&[0.0, 0.0, 0.01, 0.07, 0.5, 2.0]) } else { main };
        ev.push((10.0 + k as f64 * gap, Op::Randomise { stddev: sd }));
    }
    let clock = Clock::any(r, 0.2);
    let p = program(r, &clock, ev, end, 2 * STEPS);
    finish("cruise", seed, r, net, p)
}

/// Links thrown at random, connected at random.
fn scribble(r: &mut Rng) -> Net {
    let mut net = Net::default();
    let n = r.int(2, 10);
    let at = |r: &mut Rng| [r.f(-150.0, 150.0), r.f(-150.0, 150.0)];
    for _ in 0..n {
        let a = at(r);
        let h = r.f(0.0, 6.28);
        let cur = Cur::new(a[0], a[1], h);
        let len = r.f(12.0, 200.0);
        let (cv, _) = piece(r, cur, len, true);
        net.link(cv, r.f(3.0, 35.0));
    }
    for a in 0..n {
        for b in 0..n {
            if a != b && r.chance(0.15) {
                net.conn(a, b);
            }
            if a < b && r.chance(0.3) {
                net.conv.push((a, b));
            }
        }
    }
    net
}

/// Any network, and anything at any time.
pub fn chaos(seed: u64) -> Scenario {
    let r = &mut Rng::new(seed);
    let s = r.u64() >> 16;
    let mut net = match r.below(9) {
        0 => road(s).net,
        1 => tree(s).net,
        2 => grid_run(s, 0.0).net,
        3 | 4 => multi(s, 0.0).net,
        5 => signal(s).net,
        6 => all_way(s, false).net,
        7 => cross(s).net,
        _ => scribble(r),
    };
    let n = net.links.len();
    for g in &mut net.groups {
        if r.chance(0.3) {
            g.1 = r.u64() as u32 & ((1 << (2 * g.0.len())) - 1);
        }
    }
    let control = |r: &mut Rng| match r.below(4) {
        0 => Control::Open,
        1 => Control::Closed,
        _ => Control::Yield { distance: r.f(0.5, 30.0), must_stop: r.chance(0.5), priority: *r.pick(&[-128, -1, 0, 0, 1, 127]) },
    };
    for l in 0..n {
        if r.chance(0.15) {
            let c = control(r);
            net.controls.push((l, c));
        }
    }
    let light = |r: &mut Rng| {
        let own: Vec<usize> = (0..n).filter(|_| r.chance(0.2)).collect();
        let mut l = random_light(r, &own, 8);
        if r.chance(0.3) {
            // contradictory
            for p in &mut l.phases {
                p.0 |= r.u64() & 0xff;
            }
        }
        if r.chance(0.1) {
            l.phases.clear();
        }
        l
    };
    if r.chance(0.3) {
        let l = light(r);
        net.lights.push(l);
    }
    let end = r.f(20.0, 120.0);
    let mut ev: Vec<(f64, Op)> = vec![];
    let vs = r.int(1, 25);
    let calm = r.chance(0.25);
    for v in 0..vs {
        let mut veh = vehicle(r);
        if r.chance(0.1) {
            veh.length = r.f(1.0, 25.0);
            veh.wheel_base = 0.4 * veh.length;
            veh.max_acc = r.f(0.2, 8.0);
            veh.comf_dec = r.f(0.5, 8.0);
            veh.headway = r.f(0.1, 5.0);
        }
        let dest = r.chance(0.9).then(|| r.below(n));
        ev.push((r.f(0.0, end * 0.7), Op::Wild { op: Box::new(Op::Spawn { v, veh, link: r.below(n), dest }) }));
    }
    let k = if calm { 0 } else { r.int(1, 60) };
    for _ in 0..k {
        let t = r.f(0.0, end);
        let v = r.below(vs);
        let op = match r.below(12) {
            0 | 1 => Op::Freeze { v, on: true },
            2 | 3 => Op::Freeze { v, on: false },
            4 => Op::Remove { v },
            5 | 6 => Op::Wild { op: Box::new(Op::Dest { v, link: r.below(n) }) },
            7 | 8 if !net.groups.is_empty() => {
                for l in net.groups.iter().flat_map(|g| g.0.iter().copied()) {
                    if r.chance(0.4) {
                        ev.push((t, Op::Wild { op: Box::new(Op::LaneChange { v, link: l, dist: r.f(1.0, 120.0) }) }));
                    }
                }
                continue;
            }
            9 => Op::Randomise { stddev: *r.pick(&[0.0, 0.1, 1.0, 10.0]) },
            10 => Op::AddLight { light: light(r) },
            _ => Op::Control { link: r.below(n), control: control(r) },
        };
        ev.push((t, op));
    }
    let max = *r.pick(&[0.2, 0.2, 0.5, 1.0]);
    let clock = Clock::any(r, max);
    let p = program(r, &clock, ev, end + 60.0, STEPS / 2);
    finish("chaos", seed, r, net, p)
}
