use super::*;
use crate::geom::*;
use std::collections::{BTreeMap, BTreeSet};

/// Stop lines: closed links are not entered, stop signs are stopped at.
#[derive(Default)]
pub struct StopLines {
    ls: Links,
    control: Vec<Control>,
    lights: Vec<LightSpec>,
    /// Links a vehicle was too near to stop for while they were open.
    committed: BTreeSet<(usize, usize)>,
    /// Vehicles that have stood still near the line of a link ahead.
    halted: BTreeSet<(usize, usize)>,
    /// How long the first vehicle in line has been standing.
    waiting: BTreeMap<usize, f64>,
    /// How long a vehicle has been waiting to give way, with nobody in the junction.
    giving_way: BTreeMap<usize, f64>,
}

impl StopLines {
    fn observe(&mut self, c: &Ctx, s: &Snap) {
        for (v, x) in s.iter() {
            let spec = c.w.specs[v].unwrap();
            let commit = x.vel * x.vel / (2.0 * spec.comf_dec) + 7.5 + 1e-6;
            // links ahead of the vehicle and the distance to their stop lines
            let mut todo = vec![(x.link, c.w.len[x.link] - x.front)];
            while let Some((l, d)) = todo.pop() {
                if d > commit {
                    continue;
                }
                for n in &self.ls.outs[l] {
                    if self.control[*n] == Control::Open {
                        self.committed.insert((v, *n));
                    }
                    if self.committed.contains(&(v, *n)) {
                        todo.push((*n, d + c.w.len[*n]));
                    }
                }
            }
            for n in &self.ls.outs[x.link] {
                if let Control::Yield { distance, must_stop: true, .. } = self.control[*n] {
                    if x.vel < 0.1 + 1e-9 && c.w.len[x.link] - x.front < distance + 1e-6 {
                        self.halted.insert((v, *n));
                    }
                }
            }
        }
    }
}

impl Monitor for StopLines {
    fn start(&mut self, c: &Ctx, _s: &Snap) -> Result<(), Violation> {
        self.ls = Links::new(&c.sc.net);
        self.control = vec![Control::Open; c.sc.net.links.len()];
        for (l, k) in &c.sc.net.controls {
            self.control[*l] = *k;
        }
        self.lights = c.sc.net.lights.clone();
        Ok(())
    }

    fn op(&mut self, c: &Ctx, op: &Op, done: bool, _a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        match op {
            Op::Control { link, control } => {
                self.observe(c, b);
                if let (Control::Yield { distance, .. }, Control::Closed) = (self.control[*link], control) {
                    // those on the move may have been let in already
                    for (v, x) in b.iter().filter(|(_, x)| self.ls.outs[x.link].contains(link)) {
                        let d = c.w.len[x.link] - x.front;
                        if self.giving_way.get(&v).map_or(false, |t| *t > 1.0) {
                            p.hit("closed_to_one_giving_way");
                        } else if d < distance + 1e-6 {
                            self.committed.insert((v, *link));
                        }
                    }
                }
                self.control[*link] = *control;
                self.halted.retain(|x| x.1 != *link);
            }
            Op::AddLight { light } => self.lights.push(light.clone()),
            // one who is told to turn off just before the turning cannot stop any more
            Op::Dest { v, .. } if done => {
                let Some(x) = b.get(*v) else { return Ok(()) };
                let vel = x.vel + 1.0;
                let commit = vel * vel / (2.0 * c.w.specs[*v].unwrap().comf_dec) + 7.5 + 0.5 * vel;
                let mut todo = vec![(x.link, c.w.len[x.link] - x.front)];
                while let Some((l, d)) = todo.pop() {
                    if d > commit {
                        continue;
                    }
                    for n in &self.ls.outs[l] {
                        self.committed.insert((*v, *n));
                        todo.push((*n, d + c.w.len[*n]));
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }

    fn step(&mut self, c: &Ctx, dt: f64, a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        self.observe(c, a);
        for (v, y) in b.iter() {
            let ahead = |z: &VSnap| z.link == y.link && z.pos > y.pos || c.sc.net.conv.iter().any(|k| k.0 == z.link || k.1 == z.link);
            if y.vel < 0.01 && !y.frozen && !b.iter().any(|(_, z)| ahead(z)) {
                *self.giving_way.entry(v).or_insert(0.0) += dt;
            } else {
                self.giving_way.remove(&v);
            }
            let Some(x) = a.get(v) else { continue };
            if x.link != y.link && self.ls.outs[x.link].contains(&y.link) {
                let ok = self.committed.contains(&(v, y.link));
                match self.control[y.link] {
                    Control::Open => p.hit("entered_open"),
                    Control::Closed if !ok => {
                        return viol(
                            "entered-closed-link",
                            format!("v{v} t={:.3} drove from link {} into closed link {} at {:.3} m/s", b.t, x.link, y.link, y.vel),
                        );
                    }
                    Control::Closed => p.hit("entered_closed_committed"),
                    Control::Yield { must_stop: true, distance, .. } => {
                        if !ok && !self.halted.contains(&(v, y.link)) {
                            return viol(
                                "ran-stop-sign",
                                format!(
                                    "v{v} t={:.3} drove from link {} into link {} without halting within {distance} m of its stop line",
                                    b.t, x.link, y.link
                                ),
                            );
                        }
                        p.hit("entered_stop_sign");
                    }
                    Control::Yield { .. } => p.hit("entered_yield"),
                }
                self.committed.retain(|k| *k != (v, y.link));
                self.halted.retain(|k| k.0 != v);
            }
            // nobody stands across the line of links that are all closed to them
            let outs = &self.ls.outs[y.link];
            let over = y.front - c.w.len[y.link];
            let shut = !outs.is_empty()
                && y.dest != Some(y.link)
                && outs.iter().all(|n| self.control[*n] == Control::Closed && !self.committed.contains(&(v, *n)));
            if shut {
                p.hit("closed_line_checked");
                p.max("over_closed_line_m", over);
                if over > 1e-3 {
                    return viol(
                        "over-closed-line",
                        format!("v{v} t={:.3} is {over:.3} m over the line at the end of link {}", b.t, y.link),
                    );
                }
            }
            // the first in line waits at the line, not somewhere down the road
            let first = !b.iter().any(|(w, z)| {
                let across = outs.contains(&z.link) && z.pos < 0.5 * z.len
                    || self.ls.outs[z.link].contains(&y.link) && z.front > c.w.len[z.link];
                w != v && (across || z.link == y.link && z.pos > y.pos)
            });
            if shut && first && y.vel < 0.01 && !y.frozen {
                let w = self.waiting.entry(v).or_insert(0.0);
                *w += dt;
                if *w > 5.0 {
                    p.hit("waiting_at_line");
                    p.max("waits_before_line_m", -over);
                    if -over > 8.0 {
                        return viol(
                            "stopped-short",
                            format!("v{v} t={:.3} waits {:.3} m before the line of a closed link", b.t, -over),
                        );
                    }
                }
            } else {
                self.waiting.remove(&v);
            }
        }
        for (i, l) in self.lights.iter().enumerate() {
            for (m, mv) in l.movements.iter().enumerate() {
                for link in &mv.links {
                    self.control[*link] = if b.lights[i][m] == Sig::Green { Control::Open } else { Control::Closed };
                }
            }
        }
        Ok(())
    }
}

/// Vehicles that come from different places never touch.
#[derive(Default)]
pub struct Crossing {
    src: BTreeMap<usize, usize>,
    ls: Links,
}

impl Monitor for Crossing {
    fn start(&mut self, c: &Ctx, _s: &Snap) -> Result<(), Violation> {
        self.ls = Links::new(&c.sc.net);
        Ok(())
    }

    fn op(&mut self, _c: &Ctx, op: &Op, done: bool, _a: &Snap, _b: &Snap, _p: &mut Probes) -> Result<(), Violation> {
        if let (Op::Spawn { v, link, .. }, true) = (op, done) {
            self.src.insert(*v, *link);
        }
        Ok(())
    }

    fn step(&mut self, _c: &Ctx, _dt: f64, _a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        let vs: Vec<_> = b.iter().collect();
        for i in 0..vs.len() {
            for j in 0..i {
                let ((v, x), (w, y)) = (vs[j], vs[i]);
                if self.src.get(&v) == self.src.get(&w) {
                    continue;
                }
                let reach = 0.5 * (x.len + y.len + x.wid + y.wid);
                if dist(x.xy, y.xy) > reach {
                    continue;
                }
                // the ways part here, and neither is ahead of the other
                let parting = |o: &Vec<usize>, l: usize| o.len() > 1 && o.contains(&l);
                let fork = x.link != y.link && self.ls.outs.iter().enumerate().any(|(f, o)| (f == x.link || parting(o, x.link)) && (f == y.link || parting(o, y.link)));
                if fork {
                    continue;
                }
                p.hit("near_encounter");
                let pen = x.body().penetration(&y.body());
                p.max("penetration_m", pen);
                if pen > 0.05 {
                    return viol(
                        "collision",
                        format!(
                            "t={:.3} v{v} (link {} pos {:.2} vel {:.2}) and v{w} (link {} pos {:.2} vel {:.2}) overlap by {pen:.3} m",
                            b.t, x.link, x.pos, x.vel, y.link, y.pos, y.vel
                        ),
                    );
                }
            }
        }
        Ok(())
    }
}

/// At an all-way stop, first come is first served.
#[derive(Default)]
pub struct Fifo {
    ls: Links,
    control: Vec<Control>,
    conv: BTreeSet<(usize, usize)>,
    /// Movements that go straight on, and their direction.
    straight: BTreeMap<usize, P>,
    /// Since when a vehicle has stood first in line at its stop line.
    stood: BTreeMap<usize, f64>,
    /// Since when it has stood close to its stop line, first in line or not.
    near: BTreeMap<usize, f64>,
    /// How far from the end of its link a vehicle stands.
    stand: BTreeMap<usize, f64>,
    next: BTreeMap<usize, usize>,
    /// How long the vehicle whose turn it is has had the junction to itself.
    idle: BTreeMap<usize, f64>,
}

impl Monitor for Fifo {
    fn start(&mut self, c: &Ctx, _s: &Snap) -> Result<(), Violation> {
        self.ls = Links::new(&c.sc.net);
        self.control = vec![Control::Open; c.sc.net.links.len()];
        for (l, k) in &c.sc.net.controls {
            self.control[*l] = *k;
        }
        for (a, b) in &c.sc.net.conv {
            self.conv.insert((*a, *b));
            self.conv.insert((*b, *a));
        }
        for (i, l) in c.sc.net.links.iter().enumerate() {
            let n = Poly::new(&l.curve);
            if dot(n.at(0.0).1, n.at(n.len()).1) > 0.9 {
                self.straight.insert(i, n.at(0.0).1);
            }
        }
        Ok(())
    }

    fn op(&mut self, _c: &Ctx, op: &Op, done: bool, _a: &Snap, _b: &Snap, _p: &mut Probes) -> Result<(), Violation> {
        // the movement a vehicle will take is the one that leads to its exit
        if let (Op::Spawn { v, link, dest: Some(d), .. }, true) = (op, done) {
            let mut l = *link;
            while self.ls.outs[l].len() == 1 {
                l = self.ls.outs[l][0];
            }
            if let Some(m) = self.ls.outs[l].iter().find(|m| self.ls.outs[**m].contains(d)) {
                self.next.insert(*v, *m);
            }
        }
        Ok(())
    }

    fn step(&mut self, c: &Ctx, dt: f64, a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        let mut moved = false;
        for (v, y) in b.iter() {
            let Some(x) = a.get(v) else { continue };
            if x.link == y.link || self.next.get(&v) != Some(&y.link) {
                continue;
            }
            moved = true;
            // it set off from the very line, so not before it was let in
            let at_line = self.stood.remove(&v).is_some() && self.stand[&v] - 0.5 * x.len < 2.7;
            let Some(mine) = self.near.remove(&v) else { continue };
            p.hit("fifo_entered");
            // everyone whose way I cross and who clearly stood there before me is gone
            for (w, since) in &self.stood {
                let Some(z) = b.get(*w) else { continue };
                if z.link == x.link || z.frozen {
                    continue;
                }
                let m = self.next[w];
                if !self.conv.contains(&(m, y.link)) {
                    continue;
                }
                p.hit("fifo_others_waiting");
                let before = mine - since > REFRESH + 3.0 * dt + 1e-6;
                // and could be where our ways cross no later than me
                let across = match (self.straight.get(&m), self.straight.get(&y.link)) {
                    (Some(d), Some(e)) if dot(*d, *e).abs() < 0.7 => {
                        let way = |v: usize, m: usize, n: usize| {
                            let at = crossing(&c.sc.net, m, n).unwrap_or(0.0);
                            at + self.stand[&v]
                        };
                        way(*w, m, y.link) <= way(v, y.link, m)
                    }
                    _ => false,
                };
                if across && at_line {
                    p.hit("fifo_order_checked");
                }
                if before && across && at_line {
                    return viol(
                        "jumped-the-queue",
                        format!(
                            "v{v} stood since {mine:.2} and entered link {} at t={:.3}; v{w} has stood since {since:.2} wanting link {m}",
                            y.link, b.t
                        ),
                    );
                }
            }
        }
        self.stood.retain(|v, _| b.get(*v).is_some());
        self.near.retain(|v, _| b.get(*v).is_some());
        // who stands first in line
        for (v, y) in b.iter() {
            let Some(m) = self.next.get(&v) else { continue };
            if !self.ls.outs[y.link].contains(m) {
                continue;
            }
            let Control::Yield { distance, .. } = self.control[*m] else { continue };
            let first = !b.iter().any(|(w, z)| w != v && z.link == y.link && z.pos > y.pos);
            if y.vel < 0.1 && c.w.len[y.link] - y.front < distance + 1e-6 {
                self.near.entry(v).or_insert(b.t);
                self.stand.insert(v, c.w.len[y.link] - y.pos);
            }
            if first && y.vel < 0.1 && c.w.len[y.link] - y.front < distance - 1e-6 {
                self.stood.entry(v).or_insert(b.t);
            }
        }
        // with the junction empty, the one who has stood longest sets off
        let inside = b.iter().any(|(_, z)| {
            let front = z.front > c.w.len[z.link] - 0.5 && self.ls.outs[z.link].len() > 1;
            let tail = z.rear < 1.0 && self.ls.ins[z.link].len() > 1;
            self.ls.ins[z.link].len() == 1 && self.control[z.link] != Control::Open || front || tail
        });
        // somebody else is setting off, or was about to when frozen
        let inside = inside || self.near.keys().any(|v| b.get(*v).map_or(false, |y| y.frozen || y.vel >= 0.1));
        let oldest = self.stood.keys().copied().min_by(|a, b| self.near[a].total_cmp(&self.near[b]));
        let was = oldest.and_then(|v| self.idle.get(&v).copied()).unwrap_or(0.0);
        self.idle.clear();
        if let Some(v) = oldest {
            let y = b.get(v).unwrap();
            if !inside && !moved && !y.frozen && y.vel < 0.1 {
                self.idle.insert(v, was + dt);
                p.hit("fifo_turn_checked");
                if was + dt > 1.5 {
                    return viol(
                        "kept-waiting",
                        format!("v{v} has stood longest (since {:.2}) and the junction is empty, but at t={:.3} it is still standing", self.stood[&v], b.t),
                    );
                }
            }
        }
        Ok(())
    }
}

/// Time that must lie between one who pulls out and the next on the main road at the crossing.
const MARGIN: f64 = 0.5;

/// Nobody pulls out from a side road right in front of somebody on the main road.
#[derive(Default)]
pub struct RightOfWay {
    ls: Links,
    control: Vec<Control>,
    /// Where the ways of two movements cross: arc length along the first.
    cross: BTreeMap<(usize, usize), f64>,
    /// The movement each vehicle is going to take, and the links before it.
    way: BTreeMap<usize, Vec<usize>>,
    side: BTreeSet<usize>,
    main: BTreeSet<usize>,
    frozen: BTreeSet<usize>,
    /// Vehicles at a give-way line: how long they have stood, and the least
    /// excess of the main road's time over their own since they set off.
    stood: BTreeMap<usize, f64>,
    going: BTreeMap<usize, (f64, String)>,
    /// How long a vehicle has waited with nobody near.
    idle: BTreeMap<usize, f64>,
    let_in: bool,
}

/// Where link `m` crosses link `n`: arc length along `m`.
fn crossing(net: &Net, m: usize, n: usize) -> Option<f64> {
    let (a, b) = (Poly::new(&net.links[m].curve), Poly::new(&net.links[n].curve));
    let near = a.pts.iter().zip(&a.s).map(|(p, s)| (b.project(*p).2, *s)).min_by(|a, b| a.0.total_cmp(&b.0))?;
    (near.0 < 0.5).then_some(near.1)
}

/// Shortest time to cover `dist` from speed `v`.
fn reach_time(v: f64, acc: f64, cap: f64, dist: f64) -> f64 {
    if dist <= 0.0 {
        return 0.0;
    }
    let cap = cap.max(v);
    let run = (cap * cap - v * v) / (2.0 * acc);
    if dist < run {
        ((v * v + 2.0 * acc * dist).sqrt() - v) / acc
    } else {
        (cap - v) / acc + (dist - run) / cap
    }
}

impl RightOfWay {
    /// Distance to a point on the movement at the end of the vehicle's way, and
    /// the highest limit until there.
    fn ahead(&self, c: &Ctx, v: usize, x: &VSnap, at: f64) -> Option<(f64, f64)> {
        let way = self.way.get(&v)?;
        let i = way.iter().position(|l| *l == x.link)?;
        let before: f64 = way[i..way.len() - 1].iter().map(|l| c.w.len[*l]).sum();
        let cap = way[i..].iter().map(|l| c.sc.net.links[*l].limit).fold(0.0, f64::max);
        Some((before + at - x.pos, cap))
    }

    /// By how much the nearest priority vehicle is later at the crossing than `v`.
    fn margin(&self, c: &Ctx, s: &Snap, v: usize, x: &VSnap, all: bool) -> Option<(f64, String)> {
        let m = *self.way.get(&v)?.last()?;
        let mut best: Option<(f64, String)> = None;
        // the first on each way counts: those behind it cannot be there before
        let mut first: BTreeMap<usize, (f64, f64, usize)> = BTreeMap::new();
        for (w, y) in s.iter().filter(|(w, _)| self.main.contains(w)) {
            let Some(n) = self.way.get(&w).and_then(|x| x.last()) else { continue };
            let Some(b) = self.cross.get(&(*n, m)) else { continue };
            let Some((db, cb)) = self.ahead(c, w, y, *b) else { continue };
            if db >= 0.0 && first.get(n).map_or(true, |f| db < f.0) {
                first.insert(*n, (db, cb, w));
            }
        }
        for (n, (db, cb, w)) in first {
            let y = s.get(w).unwrap();
            let Some(a) = self.cross.get(&(m, n)) else { continue };
            let Some((da, ca)) = self.ahead(c, v, x, *a) else { continue };
            if !all && (y.vel > cb + 0.01 || y.frozen) {
                continue;
            }
            let (p, q) = (c.w.specs[v].unwrap(), c.w.specs[w].unwrap());
            let gap = reach_time(y.vel, q.max_acc, cb, db) - reach_time(x.vel, p.max_acc, ca, da);
            if best.as_ref().map_or(true, |b| gap < b.0) {
                best = Some((gap, format!("v{w}, {db:.1} m away at {:.1} m/s", y.vel)));
            }
        }
        best
    }
}

impl Monitor for RightOfWay {
    fn start(&mut self, c: &Ctx, _s: &Snap) -> Result<(), Violation> {
        self.ls = Links::new(&c.sc.net);
        self.control = vec![Control::Open; c.sc.net.links.len()];
        for (l, k) in &c.sc.net.controls {
            self.control[*l] = *k;
        }
        let moves = c.sc.net.tagged("move");
        for m in &moves {
            for n in moves.iter().filter(|n| *n != m) {
                if let Some(s) = crossing(&c.sc.net, *m, *n) {
                    self.cross.insert((*m, *n), s);
                }
            }
        }
        Ok(())
    }

    fn op(&mut self, c: &Ctx, op: &Op, done: bool, _a: &Snap, _b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        match op {
            Op::Spawn { v, link, dest: Some(d), .. } if done => {
                let mut way = vec![*link];
                let moves = c.sc.net.tagged("move");
                let slips = c.sc.net.tagged("slip");
                while !moves.contains(way.last().unwrap()) {
                    let l = *way.last().unwrap();
                    let Some(n) = self.ls.outs[l].iter().find(|n| !moves.contains(n) && !slips.contains(n) || self.ls.outs[**n].contains(d)) else {
                        return Ok(());
                    };
                    way.push(*n);
                    if slips.contains(n) {
                        p.hit("turns_off_before_the_crossing");
                        return Ok(());
                    }
                }
                self.way.insert(*v, way);
                if c.sc.net.tagged("main").contains(link) {
                    self.main.insert(*v);
                } else {
                    self.side.insert(*v);
                }
            }
            Op::Freeze { v, .. } if done => {
                self.frozen.insert(*v);
            }
            Op::Control { link, control } => self.control[*link] = *control,
            _ => {}
        }
        Ok(())
    }

    fn step(&mut self, c: &Ctx, dt: f64, a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        let mut out = vec![];
        for v in &self.side {
            let (Some(x), Some(y)) = (a.get(*v), b.get(*v)) else {
                out.push(*v);
                continue;
            };
            let Some(way) = self.way.get(v) else { continue };
            let m = *way.last().unwrap();
            if way.len() < 2 || x.link != way[way.len() - 2] {
                out.push(*v);
                continue;
            }
            let Control::Yield { distance, .. } = self.control[m] else {
                out.push(*v);
                continue;
            };
            let to_line = c.w.len[x.link] - x.front;
            if to_line > distance + 0.3 * x.vel + 1.0 || to_line < 0.0 {
                continue;
            }
            if !self.let_in {
                self.let_in = true;
                p.max("side_let_in_s", -a.t);
            }
            // it has been let in at some moment since it came near the line; if
            // it stands with nothing in its way, it has not been let in yet
            let held = a.iter().any(|(w, z)| {
                let ahead = z.link == x.link && z.pos > x.pos || z.link == m && z.rear < 12.0;
                let across = self.cross.get(&(z.link, m)).map_or(false, |s| z.rear < *s + 4.0);
                w != *v && (ahead || across)
            });
            let waits = x.vel < 0.1 && !held && !self.frozen.contains(v) && self.stood.get(v).map_or(false, |t| *t > 0.5);
            if x.vel < 0.1 && !held {
                *self.stood.entry(*v).or_insert(0.0) += dt;
            } else {
                self.stood.remove(v);
            }
            let now = self.margin(c, a, *v, x, false).unwrap_or((f64::INFINITY, String::new()));
            match self.going.get(v) {
                Some(g) if g.0 >= now.0 && !waits => {}
                _ => {
                    self.going.insert(*v, now.clone());
                }
            }
            if waits {
                p.hit("waiting_at_give_way");
                // with nobody near, there is nothing to wait for
                let clear = !a.iter().any(|(w, z)| w != *v && self.cross.contains_key(&(z.link, m)));
                let room = self.margin(c, a, *v, x, true).map_or(f64::INFINITY, |m| m.0);
                let t = self.idle.entry(*v).or_insert(0.0);
                if clear && room > 4.0 {
                    *t += dt;
                    p.hit("free_to_go");
                } else {
                    *t = 0.0;
                }
                if *t > 1.5 {
                    return viol(
                        "waits-for-nobody",
                        format!("v{v} t={:.3} has waited {t:.2} s at its line, although nobody could get in its way for {room:.1} s", b.t),
                    );
                }
            } else {
                self.idle.remove(v);
            }
            if y.link != x.link || y.front > c.w.len[y.link] {
                let (g, who) = self.going.remove(v).unwrap();
                out.push(*v);
                p.hit("pulled_out");
                if g.is_finite() {
                    p.hit("pulled_out_before_somebody");
                    p.max("least_margin_s", -g);
                    if x.vel < 3.0 {
                        p.hit("pulled_out_slowly_before_somebody");
                    }
                }
                if g < MARGIN {
                    return viol(
                        "cut-in",
                        format!("v{v} t={:.3} has pulled out of its side road in front of {who}, who could have been there {:.2} s after it", b.t, g),
                    );
                }
            }
        }
        for v in out {
            self.stood.remove(&v);
            self.going.remove(&v);
        }
        Ok(())
    }
}
