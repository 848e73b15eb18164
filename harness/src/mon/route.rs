use super::*;
use std::collections::BTreeMap;

/// Time within which somebody leaves, as long as anybody is left.
const PATIENCE: f64 = 140.0;
/// A vehicle standing this close to an open line counts as on its way in (m).
const COMMIT: f64 = 8.0;

/// Every vehicle reaches its destination once the disturbances are over.
#[derive(Default)]
pub struct Arrival {
    ls: Links,
    total: u64,
    quiet: Option<f64>,
    /// Links on which a standing vehicle blocks a junction.
    keep_clear: Vec<bool>,
    blocked: bool,
    /// When a vehicle last left.
    last: f64,
}

impl Monitor for Arrival {
    fn start(&mut self, c: &Ctx, _s: &Snap) -> Result<(), Violation> {
        self.ls = Links::new(&c.sc.net);
        self.keep_clear = vec![false; self.ls.outs.len()];
        for (a, b) in &c.sc.net.conv {
            for m in [*a, *b] {
                self.keep_clear[m] = true;
                self.ls.outs[m].iter().for_each(|o| self.keep_clear[*o] = true);
            }
        }
        Ok(())
    }

    fn step(&mut self, c: &Ctx, _dt: f64, a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        if a.iter().any(|(v, _)| b.get(v).is_none()) {
            self.last = b.t;
        }
        // whoever is held up in a junction, or about to enter it, may have brought it to gridlock for good
        if !self.blocked {
            self.blocked = b.iter().any(|(_, x)| {
                let over = x.front > c.w.len[x.link] - COMMIT && self.ls.outs[x.link].iter().any(|o| self.keep_clear[*o]);
                x.frozen && (self.keep_clear[x.link] || over)
            });
            if self.blocked {
                p.hit("junction_blocked");
            }
        }
        Ok(())
    }

    fn op(&mut self, _c: &Ctx, op: &Op, done: bool, _a: &Snap, b: &Snap, _p: &mut Probes) -> Result<(), Violation> {
        match op {
            Op::Spawn { dest: Some(_), .. } if done => self.total += 1,
            // everything released, and everybody with somewhere to go
            Op::Quiesce if b.iter().all(|(_, x)| !x.frozen && x.dest.is_some()) => self.quiet = Some(b.t),
            _ => {}
        }
        Ok(())
    }

    fn finish(&mut self, c: &Ctx, s: &Snap, p: &mut Probes) -> Result<(), Violation> {
        // only if the run lasted as long as its traffic may need
        let Some(tail) = c.sc.net.tagged("tail").first().copied() else { return Ok(()) };
        if self.blocked || !self.quiet.map_or(false, |q| s.t >= q + tail as f64) {
            return Ok(());
        }
        // nor while vehicles are still leaving one after another
        if s.t - self.last < PATIENCE && s.iter().any(|(_, x)| x.dest.is_some()) {
            p.hit("still_busy_at_the_end");
            return Ok(());
        }
        p.add("arrival_due", self.total);
        for (v, x) in s.iter() {
            if let Some(d) = x.dest {
                return viol(
                    "not-arrived",
                    format!("v{v} is still on link {} at {:.2} with speed {:.2} at t={:.1}, bound for {d}", x.link, x.pos, x.vel, s.t),
                );
            }
        }
        Ok(())
    }
}

/// Travel time of a link at its speed limit.
pub fn cost(c: &Ctx, l: usize) -> f64 {
    c.w.len[l] / c.sc.net.links[l].limit
}

/// Least cost from `src` until the end of `dst`, lane changes for free.
pub fn least_cost(c: &Ctx, ls: &Links, src: usize, dst: usize) -> Option<(f64, usize)> {
    let n = ls.outs.len();
    let mut best = vec![f64::INFINITY; n];
    let mut hops = vec![0usize; n];
    let mut done = vec![false; n];
    best[src] = 0.0;
    loop {
        let l = (0..n).filter(|l| !done[*l] && best[*l].is_finite()).min_by(|a, b| best[*a].total_cmp(&best[*b]))?;
        if l == dst {
            return Some((best[l] + cost(c, l), hops[l] + 1));
        }
        done[l] = true;
        for s in &ls.side[l] {
            if best[l] < best[*s] {
                best[*s] = best[l];
                hops[*s] = hops[l];
            }
        }
        for o in &ls.outs[l] {
            if best[l] + cost(c, l) < best[*o] {
                best[*o] = best[l] + cost(c, l);
                hops[*o] = hops[l] + 1;
            }
        }
    }
}

struct Trip {
    from: usize,
    to: usize,
    /// Cost of the links left behind since the trip began.
    spent: f64,
    links: usize,
    /// Time left before the trip is held to start; a new destination takes
    /// effect at the next re-planning.
    grace: f64,
}

/// Vehicles take a route of least travel time at the speed limits.
#[derive(Default)]
pub struct Routes {
    ls: Links,
    trips: BTreeMap<usize, Trip>,
}

pub const REPLAN: f64 = 0.3;

impl Monitor for Routes {
    fn start(&mut self, c: &Ctx, _s: &Snap) -> Result<(), Violation> {
        self.ls = Links::new(&c.sc.net);
        Ok(())
    }

    fn op(&mut self, _c: &Ctx, op: &Op, done: bool, _a: &Snap, b: &Snap, _p: &mut Probes) -> Result<(), Violation> {
        match op {
            Op::Spawn { v, link, dest: Some(d), .. } if done => {
                self.trips.insert(*v, Trip { from: *link, to: *d, spent: 0.0, links: 0, grace: 0.0 });
            }
            Op::Dest { v, link } if done => {
                let x = b.get(*v).unwrap();
                self.trips.insert(*v, Trip { from: x.link, to: *link, spent: 0.0, links: 0, grace: REPLAN + 1e-6 });
            }
            _ => {}
        }
        Ok(())
    }

    fn step(&mut self, c: &Ctx, dt: f64, a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        let mut over = vec![];
        for (v, t) in self.trips.iter_mut() {
            let Some(x) = a.get(*v) else { continue };
            if t.grace >= 0.0 && b.get(*v).is_some() {
                // not yet binding: start from wherever the vehicle is
                if t.grace > 0.0 {
                    t.from = b.get(*v).unwrap().link;
                    t.spent = 0.0;
                    t.links = 0;
                    t.grace -= dt;
                    if t.grace <= 0.0 {
                        t.grace = -1.0;
                    }
                    continue;
                }
                t.grace = -1.0;
            }
            let gone = match b.get(*v) {
                None => true,
                Some(y) => {
                    if x.link != y.link && self.ls.outs[x.link].contains(&y.link) {
                        t.spent += cost(c, x.link);
                        t.links += 1;
                        let (Some((least, _)), rest) = (least_cost(c, &self.ls, t.from, t.to), least_cost(c, &self.ls, y.link, t.to)) else { continue };
                        let Some((rest, hops)) = rest else {
                            return viol("wrong-way", format!("v{v} t={:.3} drove into link {}, from where it cannot get to {}", b.t, y.link, t.to));
                        };
                        p.hit("turn_checked");
                        if t.spent + rest > least + 0.1 * (t.links + hops) as f64 + 1e-6 {
                            return viol(
                                "detour",
                                format!(
                                    "v{v} t={:.3} is on link {} after {:.2} s worth of links, {rest:.2} s from link {}; from link {} it was {least:.2} s",
                                    b.t, y.link, t.spent, t.to, t.from
                                ),
                            );
                        }
                    }
                    false
                }
            };
            if gone {
                over.push(*v);
                if x.link != t.to {
                    continue; // conservation's business
                }
                t.spent += cost(c, x.link);
                t.links += 1;
                let Some((least, hops)) = least_cost(c, &self.ls, t.from, t.to) else { continue };
                // link costs are held in tenths of a second
                let slack = 0.1 * t.links.max(hops) as f64 + 1e-6;
                p.hit("route_checked");
                p.max("route_excess_s", t.spent - least);
                if t.spent > least + slack {
                    return viol(
                        "detour",
                        format!(
                            "v{v} took {:.2} s worth of links from link {} to {}, the best route is worth {least:.2} s",
                            t.spent, t.from, t.to
                        ),
                    );
                }
                let alt = c.sc.net.links.len();
                if t.links > 1 && alt > t.links {
                    p.hit("route_with_alternatives");
                }
            }
        }
        for v in over {
            self.trips.remove(&v);
        }
        Ok(())
    }
}
