//! Runs a scenario against the real simulation through its public API only.

use crate::entropy;
use crate::geom::{Body, P};
use crate::spec::*;
use std::collections::BTreeMap;
use traffic_sim::math::{CubicBezier2d, LineSegment2d, ParametricCurve2d, Point2d, QuadraticBezier2d};
use traffic_sim::{
    LightState, LinkAttributes, LinkId, Simulation, TrafficControl, TrafficLight, TrafficLightId,
    VehicleAttributes, VehicleId,
};

#[derive(Clone, Debug)]
pub struct VSnap {
    pub link: usize,
    pub pos: f64,
    pub front: f64,
    pub rear: f64,
    pub vel: f64,
    pub xy: P,
    pub dir: P,
    pub rear_coords: [P; 2],
    pub len: f64,
    pub wid: f64,
    pub dest: Option<usize>,
    pub stopped: bool,
    pub frozen: bool,
}

impl VSnap {
    pub fn body(&self) -> Body {
        Body {
            c: self.xy,
            d: self.dir,
            hl: 0.5 * self.len,
            hw: 0.5 * self.wid,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sig {
    Red,
    Amber,
    Green,
}

/// Everything a user can observe of the simulation at one instant.
#[derive(Clone, Debug, Default)]
pub struct Snap {
    pub t: f64,
    pub frame: usize,
    pub vehs: Vec<Option<VSnap>>,
    pub lights: Vec<Vec<Sig>>,
}

impl Snap {
    pub fn get(&self, v: usize) -> Option<&VSnap> {
        self.vehs.get(v).and_then(|x| x.as_ref())
    }
    pub fn iter(&self) -> impl Iterator<Item = (usize, &VSnap)> {
        self.vehs
            .iter()
            .enumerate()
            .filter_map(|(i, x)| x.as_ref().map(|x| (i, x)))
    }
    /// Vehicles on a link from rear to front.
    pub fn on_link(&self, link: usize) -> Vec<(usize, &VSnap)> {
        let mut v: Vec<_> = self.iter().filter(|(_, s)| s.link == link).collect();
        v.sort_by(|a, b| a.1.pos.partial_cmp(&b.1.pos).unwrap_or(std::cmp::Ordering::Equal));
        v
    }
}

pub struct World {
    pub sim: Simulation,
    pub links: Vec<LinkId>,
    pub link_idx: BTreeMap<LinkId, usize>,
    pub len: Vec<f64>,
    pub light_ids: Vec<Option<TrafficLightId>>,
    net: Net,
    pub ids: Vec<Option<VehicleId>>,
    pub ord: BTreeMap<VehicleId, usize>,
    pub specs: Vec<Option<VehSpec>>,
    pub time: f64,
    pub steps: usize,
    /// Vehicles reported by the simulation that were never added, or reported twice.
    pub strays: Vec<String>,
    /// Which links can be reached from which, lane changes included.
    pub reach: Vec<Vec<bool>>,
    /// The same without lane changes.
    pub ahead: Vec<Vec<bool>>,
    outs: Vec<Vec<usize>>,
    side: Vec<Vec<usize>>,
    beside: Vec<Vec<usize>>,
    /// Requests made for vehicles that are no longer there.
    pub stale: u64,
    /// An id that was given out a second time.
    pub reused: Option<(usize, usize)>,
}

fn pt(p: P) -> Point2d {
    Point2d::new(p[0], p[1])
}

/// Owned curve for handing to `add_link`.
pub fn curve_box(c: &Curve) -> Box<dyn ParametricCurve2d> {
    match c {
        Curve::Line([a, b]) => Box::new(LineSegment2d::from_ends(pt(*a), pt(*b))),
        Curve::Quad(p) => Box::new(QuadraticBezier2d::new(&p.map(pt))),
        Curve::Cubic(p) => Box::new(CubicBezier2d::new(&p.map(pt))),
    }
}

pub fn control(c: Control) -> TrafficControl {
    match c {
        Control::Open => TrafficControl::Open,
        Control::Closed => TrafficControl::Closed,
        Control::Yield {
            distance,
            must_stop,
            priority,
        } => TrafficControl::Yield {
            distance,
            must_stop,
            priority,
        },
    }
}

pub fn make_light(spec: &LightSpec, links: &[LinkId]) -> TrafficLight {
    let mut light = TrafficLight::new();
    for m in &spec.movements {
        light.add_movement(m.conflict, m.amber, m.red, m.links.iter().map(|l| links[*l]));
    }
    for (mask, dur) in &spec.phases {
        light.add_phase(*mask, *dur);
    }
    light
}

pub fn sig(s: LightState) -> Sig {
    match s {
        LightState::Red => Sig::Red,
        LightState::Amber => Sig::Amber,
        LightState::Green => Sig::Green,
    }
}

impl World {
    pub fn build(net: &Net) -> World {
        let mut w = World::whole(net);
        if let Some(l) = net.late {
            // keep what is known of the whole, and begin with a part of it
            w.sim = Simulation::new();
            w.links.clear();
            w.link_idx.clear();
            w.light_ids = vec![None; net.lights.len()];
            w.construct(0, l);
        }
        w
    }

    /// Adds links `lo..hi` and everything that needs nothing beyond them.
    fn construct(&mut self, lo: usize, hi: usize) {
        let sim = &mut self.sim;
        let links = &mut self.links;
        let net = &self.net;
        for l in &net.links[lo..hi] {
            let c = curve_box(&l.curve);
            let id = sim.add_link(&LinkAttributes {
                curve: &*c,
                speed_limit: l.limit,
            });
            self.link_idx.insert(id, links.len());
            links.push(id);
        }
        let now = |last: Option<usize>| last.map_or(lo == 0, |l| (lo..hi).contains(&l));
        for (a, b) in net.conns.iter().filter(|c| now(Some(usize::max(c.0, c.1)))) {
            sim.add_link_connection(links[*a], links[*b]);
        }
        for (ids, mask) in net.groups.iter().filter(|g| now(g.0.iter().copied().max())) {
            let ids: Vec<_> = ids.iter().map(|i| links[*i]).collect();
            sim.add_link_group(&ids, *mask);
        }
        for (a, b) in net.conv.iter().filter(|c| now(Some(usize::max(c.0, c.1)))) {
            sim.add_link_convergance(links[*a], links[*b]);
        }
        for (l, c) in net.controls.iter().filter(|c| now(Some(c.0))) {
            sim.set_link_control(links[*l], control(*c));
        }
        for (k, l) in net.lights.iter().enumerate() {
            if now(l.movements.iter().flat_map(|m| m.links.iter().copied()).max()) {
                self.light_ids[k] = Some(sim.add_traffic_light(make_light(l, links)));
            }
        }
    }

    fn whole(net: &Net) -> World {
        let mut w = World {
            sim: Simulation::new(),
            links: vec![],
            link_idx: BTreeMap::new(),
            len: vec![],
            light_ids: vec![None; net.lights.len()],
            net: net.clone(),
            ids: vec![],
            ord: BTreeMap::new(),
            specs: vec![],
            time: 0.0,
            steps: 0,
            strays: vec![],
            reach: (0..net.links.len()).map(|l| crate::fam::reachable(net, l)).collect(),
            side: (0..net.links.len()).map(|l| crate::fam::lane_neighbours(net, l)).collect(),
            beside: (0..net.links.len())
                .map(|l| net.groups.iter().filter(|g| g.0.contains(&l)).flat_map(|g| g.0.iter().copied()).filter(|m| *m != l).collect())
                .collect(),
            stale: 0,
            reused: None,
            outs: {
                let mut outs = vec![vec![]; net.links.len()];
                net.conns.iter().for_each(|(a, b)| outs[*a].push(*b));
                outs
            },
            ahead: {
                let straight = Net { groups: vec![], ..net.clone() };
                (0..net.links.len()).map(|l| crate::fam::reachable(&straight, l)).collect()
            },
        };
        w.construct(0, net.links.len());
        w.len = w.links.iter().map(|l| w.sim.get_link(*l).length()).collect();
        w
    }

    pub fn snap(&mut self) -> Snap {
        let mut vehs: Vec<Option<VSnap>> = vec![None; self.ids.len()];
        self.strays.clear();
        let frozen: Vec<bool> = self
            .ids
            .iter()
            .map(|id| id.map_or(false, |id| self.sim.get_vehicle_frozen(id)))
            .collect();
        for v in self.sim.iter_vehicles() {
            let Some(ord) = self.ord.get(&v.id()).copied() else {
                self.strays.push(format!("unknown vehicle {:?}", v.id()));
                continue;
            };
            if vehs[ord].is_some() {
                self.strays.push(format!("vehicle v{ord} listed twice"));
            }
            let Some(link) = v.link_id().and_then(|l| self.link_idx.get(&l).copied()) else {
                self.strays.push(format!("vehicle v{ord} is on no link of the network"));
                continue;
            };
            let rc = v.rear_coords();
            vehs[ord] = Some(VSnap {
                link,
                pos: v.pos_mid(),
                front: v.pos_front(),
                rear: v.pos_rear(),
                vel: v.vel(),
                xy: [v.position().x, v.position().y],
                dir: [v.direction().x, v.direction().y],
                rear_coords: [[rc[0].x, rc[0].y], [rc[1].x, rc[1].y]],
                len: v.length(),
                wid: v.width(),
                dest: self.link_idx.get(&v.destination()).copied(),
                stopped: v.has_stopped(),
                frozen: frozen[ord],
            });
        }
        let mut lights = vec![];
        for id in &self.light_ids {
            let l = self.sim.iter_lights().find(|(i, _)| Some(*i) == *id).map(|x| x.1);
            lights.push(match l {
                Some(l) => l.state().map(|(_, s)| sig(s)).collect(),
                None => vec![],
            });
        }
        Snap {
            t: self.time,
            frame: self.sim.frame(),
            vehs,
            lights,
        }
    }

    pub fn id(&self, v: usize) -> Option<VehicleId> {
        self.ids.get(v).copied().flatten()
    }

    fn add(&mut self, v: usize, veh: &VehSpec, link: usize, dest: Option<usize>) {
        let id = self.sim.add_vehicle(
            &VehicleAttributes {
                width: veh.width,
                length: veh.length,
                wheel_base: veh.wheel_base,
                headway: veh.headway,
                max_acc: veh.max_acc,
                comf_dec: veh.comf_dec,
            },
            self.links[link],
        );
        if self.ids.len() <= v {
            self.ids.resize(v + 1, None);
            self.specs.resize(v + 1, None);
        }
        self.ids[v] = Some(id);
        self.specs[v] = Some(*veh);
        if let Some(w) = self.ord.insert(id, v) {
            self.reused = Some((w, v));
        }
        if let Some(d) = dest {
            self.sim.set_vehicle_destination(id, self.links[d]);
        }
    }

    /// The same without regard for whether it makes sense.
    fn apply_wild(&mut self, op: &Op, now: &Snap) -> bool {
        match op {
            Op::Spawn { v, veh, link, dest } => {
                if self.id(*v).is_some() {
                    return false;
                }
                self.add(*v, veh, *link, *dest);
                true
            }
            Op::Dest { v, link } => {
                if now.get(*v).is_none() {
                    return false;
                }
                let id = self.id(*v).unwrap();
                self.sim.set_vehicle_destination(id, self.links[*link]);
                true
            }
            Op::LaneChange { v, link, dist } => {
                // to any lane of the group, permitted or not
                let Some(s) = now.get(*v) else { return false };
                let near = self.beside[s.link].contains(link);
                if !near || s.pos > self.len[*link] - 1.0 {
                    return false;
                }
                let id = self.id(*v).unwrap();
                self.sim.do_lane_change(id, self.links[*link], *dist);
                true
            }
            op => self.apply(op, now),
        }
    }

    /// The least distance from the start of a link to that of another one ahead,
    /// if it is within reach.
    fn dist_to(&self, from: usize, to: usize, reach: f64) -> Option<f64> {
        if from == to {
            return Some(0.0);
        }
        if self.len[from] > reach {
            return None;
        }
        let next = self.outs[from].iter().filter_map(|l| self.dist_to(*l, to, reach - self.len[from]));
        next.min_by(f64::total_cmp).map(|d| d + self.len[from])
    }

    /// Whether the links an operation speaks of are there yet.
    fn built(&self, op: &Op) -> bool {
        let n = self.links.len();
        match op {
            Op::Spawn { link, dest, .. } => *link < n && dest.map_or(true, |d| d < n),
            Op::Dest { link, .. } | Op::LaneChange { link, .. } | Op::Control { link, .. } => *link < n,
            Op::AddLight { light } => light.movements.iter().all(|m| m.links.iter().all(|l| *l < n)),
            Op::Wild { op } => self.built(op),
            Op::Grow => n < self.net.links.len(),
            _ => true,
        }
    }

    /// Carries out an operation other than `Step`. Returns whether it had any effect.
    pub fn apply(&mut self, op: &Op, now: &Snap) -> bool {
        if !self.built(op) {
            return false;
        }
        match op {
            Op::Grow => {
                let n = self.links.len();
                self.construct(n, self.net.links.len());
                true
            }
            Op::Step { .. } | Op::Quiesce => true,
            Op::Wild { op } => self.apply_wild(op, now),
            Op::Spawn { v, veh, link, dest } => {
                // The place must be clear, as a user of the library would ensure.
                let half = 0.5 * veh.length;
                let clear = now
                    .iter()
                    .all(|(_, s)| self.dist_to(*link, s.link, 40.0).map_or(true, |d| d + s.rear > half + 2.5));
                if !clear || self.id(*v).is_some() {
                    return false;
                }
                self.add(*v, veh, *link, *dest);
                true
            }
            Op::Remove { v } => {
                let Some(id) = self.id(*v) else { return false };
                // asking for one that is gone must do nothing
                self.sim.remove_vehicle(id);
                self.stale += now.get(*v).is_none() as u64;
                now.get(*v).is_some()
            }
            Op::Freeze { v, on } => {
                let Some(id) = self.id(*v) else { return false };
                self.sim.set_vehicle_frozen(id, *on);
                self.stale += now.get(*v).is_none() as u64;
                now.get(*v).is_some()
            }
            Op::Dest { v, link } => {
                // Only to places the vehicle can get to from where it is, and not
                // so late that it is past the turning before it next looks.
                let Some(x) = now.get(*v) else { return false };
                let late = self.len[x.link] - x.pos < 0.5 * x.vel + 2.0;
                let wrong = |out: &usize| !self.reach[*out][*link];
                if !self.reach[x.link][*link] || late && self.outs[x.link].iter().any(wrong) {
                    return false;
                }
                let id = self.id(*v).unwrap();
                self.sim.set_vehicle_destination(id, self.links[*link]);
                true
            }
            Op::LaneChange { v, link, dist } => {
                let Some(s) = now.get(*v) else { return false };
                // Only between lanes of which the network says so.
                if !self.side[s.link].contains(link) {
                    return false;
                }
                // Not where it would leave the vehicle no room to go back.
                let room = self.len[*link] - s.pos;
                let lost = s.dest.map_or(false, |d| !self.ahead[*link][d]);
                // A change may go on into the next stretch of the carriageway.
                let on = matches!(self.outs[*link][..], [o] if !self.beside[o].is_empty());
                if room < 1.0 || room < *dist + 5.0 && !on || lost && room < 200.0 {
                    return false;
                }
                let id = self.id(*v).unwrap();
                self.sim.do_lane_change(id, self.links[*link], *dist);
                true
            }
            Op::Control { link, control: c } => {
                self.sim.set_link_control(self.links[*link], control(*c));
                true
            }
            Op::Randomise { stddev } => {
                self.sim.randomise_velocity_adjusts(*stddev);
                true
            }
            Op::AddLight { light } => {
                let id = self.sim.add_traffic_light(make_light(light, &self.links));
                self.light_ids.push(Some(id));
                true
            }
        }
    }
}

/// A broken property, as a monitor reports it.
#[derive(Clone, Debug)]
pub struct Violation {
    /// A stable name of what was broken; minimisation keeps it fixed.
    pub class: String,
    pub detail: String,
}

pub fn viol<T>(class: &str, detail: String) -> Result<T, Violation> {
    Err(Violation {
        class: class.to_string(),
        detail,
    })
}

/// What monitors see of the run.
pub struct Ctx<'a> {
    pub sc: &'a Scenario,
    pub w: &'a World,
}

/// Counters a run contributes to the evidence.
#[derive(Clone, Debug, Default)]
pub struct Probes(
    pub std::collections::BTreeMap<String, u64>,
    /// Largest value seen of some quantity, to show how near the bounds runs came.
    pub std::collections::BTreeMap<String, f64>,
);

impl Probes {
    pub fn hit(&mut self, name: &str) {
        self.add(name, 1);
    }
    pub fn add(&mut self, name: &str, n: u64) {
        if let Some(x) = self.0.get_mut(name) {
            *x += n;
        } else {
            self.0.insert(name.to_string(), n);
        }
    }
    pub fn max(&mut self, name: &str, x: f64) {
        if let Some(y) = self.1.get_mut(name) {
            *y = y.max(x);
        } else {
            self.1.insert(name.to_string(), x);
        }
    }
    pub fn get(&self, name: &str) -> u64 {
        self.0.get(name).copied().unwrap_or(0)
    }
    pub fn merge(&mut self, o: &Probes) {
        for (k, v) in &o.0 {
            self.add(k, *v);
        }
        for (k, v) in &o.1 {
            self.max(k, *v);
        }
    }
}

pub trait Monitor {
    fn start(&mut self, _c: &Ctx, _s: &Snap) -> Result<(), Violation> {
        Ok(())
    }
    /// After an operation other than a step. `done` is false if it was a no-op.
    fn op(&mut self, _c: &Ctx, _op: &Op, _done: bool, _a: &Snap, _b: &Snap, _p: &mut Probes) -> Result<(), Violation> {
        Ok(())
    }
    /// After a step of `dt` seconds from `a` to `b`.
    fn step(&mut self, _c: &Ctx, _dt: f64, _a: &Snap, _b: &Snap, _p: &mut Probes) -> Result<(), Violation> {
        Ok(())
    }
    fn finish(&mut self, _c: &Ctx, _s: &Snap, _p: &mut Probes) -> Result<(), Violation> {
        Ok(())
    }
}

#[derive(Clone, Debug, Default)]
pub struct RunStats {
    pub steps: u64,
    pub sim_time: f64,
    pub probes: Probes,
    /// Hash of everything observed, bit for bit.
    pub trace_hash: u64,
    /// Hashes of coarse abstract states visited.
    pub states: std::collections::BTreeSet<u64>,
}

impl RunStats {
    pub fn merge(&mut self, o: RunStats) {
        self.steps += o.steps;
        self.sim_time += o.sim_time;
        self.probes.merge(&o.probes);
        fnv(&mut self.trace_hash, o.trace_hash);
        self.states.extend(o.states);
    }
}

pub struct RunResult {
    pub violation: Option<Violation>,
    pub stats: RunStats,
}

pub fn fnv(h: &mut u64, x: u64) {
    *h ^= x;
    *h = h.wrapping_mul(0x100_0000_01B3);
    *h ^= *h >> 29;
}

pub fn hash_snap(h: &mut u64, s: &Snap) {
    fnv(h, s.frame as u64);
    for (i, v) in s.iter() {
        fnv(h, i as u64);
        fnv(h, v.link as u64);
        for x in [v.pos, v.vel, v.xy[0], v.xy[1], v.dir[0], v.dir[1]] {
            fnv(h, x.to_bits());
        }
    }
    for l in &s.lights {
        for m in l {
            fnv(h, *m as u64);
        }
    }
}

fn abstract_state(s: &Snap) -> u64 {
    let mut acc = 0u64;
    for (_, v) in s.iter() {
        let mut h = 0xcbf2_9ce4_8422_2325;
        fnv(&mut h, v.link as u64);
        fnv(&mut h, (v.pos / 10.0).floor() as i64 as u64);
        fnv(&mut h, (v.vel / 3.0).ceil() as i64 as u64);
        acc = acc.wrapping_add(h);
    }
    let mut h = acc;
    for l in &s.lights {
        for m in l {
            fnv(&mut h, *m as u64 + 1);
        }
    }
    h
}

/// Runs a scenario to its end or to the first violation.  Must be called on a
/// thread of its own (see `entropy`).
pub fn execute(sc: &Scenario, monitors: &mut [Box<dyn Monitor>]) -> RunResult {
    let mut stats = RunStats {
        trace_hash: 0xcbf2_9ce4_8422_2325,
        ..Default::default()
    };
    let violation = execute_inner(sc, monitors, &mut stats).err();
    stats.probes.add("os_entropy_draws", entropy::draws());
    RunResult { violation, stats }
}

fn execute_inner(
    sc: &Scenario,
    monitors: &mut [Box<dyn Monitor>],
    stats: &mut RunStats,
) -> Result<(), Violation> {
    let mut w = World::build(&sc.net);
    let mut cur = w.snap();
    for m in monitors.iter_mut() {
        m.start(&Ctx { sc, w: &w }, &cur)?;
    }
    for op in &sc.program {
        if let Op::Step { dt, n } = op {
            for _ in 0..*n {
                w.sim.step(*dt);
                w.time += dt;
                w.steps += 1;
                let next = w.snap();
                stats.steps += 1;
                stats.sim_time += dt;
                hash_snap(&mut stats.trace_hash, &next);
                if w.steps % 4 == 0 {
                    stats.states.insert(abstract_state(&next));
                }
                for m in monitors.iter_mut() {
                    m.step(&Ctx { sc, w: &w }, *dt, &cur, &next, &mut stats.probes)?;
                }
                cur = next;
            }
        } else {
            let done = w.apply(op, &cur);
            let next = w.snap();
            if done {
                stats.probes.hit(match op {
                    Op::Wild { op } => match **op {
                        Op::Spawn { .. } => "fault_add_anywhere",
                        Op::Dest { .. } => "fault_any_destination",
                        Op::LaneChange { .. } => "fault_any_lane_change",
                        _ => "fault_other",
                    },
                    Op::Spawn { .. } => "op_spawn",
                    Op::Remove { .. } => "fault_remove",
                    Op::Freeze { on: true, .. } => "fault_freeze",
                    Op::Freeze { on: false, .. } => "fault_unfreeze",
                    Op::Dest { .. } => "fault_redestination",
                    Op::LaneChange { .. } => "fault_forced_lane_change",
                    Op::Control { .. } => "fault_control_switch",
                    Op::Randomise { .. } => "fault_speed_randomise",
                    Op::AddLight { .. } => "fault_add_light",
                    Op::Grow => "fault_network_grows",
                    _ => "quiesce",
                });
            }
            for m in monitors.iter_mut() {
                m.op(&Ctx { sc, w: &w }, op, done, &cur, &next, &mut stats.probes)?;
            }
            cur = next;
        }
    }
    stats.probes.add("fault_request_for_gone_vehicle", w.stale);
    for m in monitors.iter_mut() {
        m.finish(&Ctx { sc, w: &w }, &cur, &mut stats.probes)?;
    }
    Ok(())
}
