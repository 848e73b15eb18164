use super::*;
use crate::geom::*;
use std::collections::BTreeMap;

struct Change {
    /// Distance driven since the change began.
    run: f64,
    /// Distance the change takes.
    dist: f64,
    /// Signed distance from the target lane at its beginning.
    from: f64,
    /// The largest part of it seen to have been covered.
    best: f64,
    /// Whether the vehicle was driving along its lane when it began.
    settled: bool,
}

/// Lane changes go to permitted lanes, smoothly, and are completed.
#[derive(Default)]
pub struct LaneChanges {
    ls: Links,
    poly: Vec<Poly>,
    on: BTreeMap<usize, Change>,
    /// Which way and how far each vehicle went lately, and where it was then.
    last: BTreeMap<usize, (P, f64, P)>,
    /// Greatest curvature the way of a vehicle may have, by the roads and its lane changes.
    bent: BTreeMap<usize, f64>,
    road_bend: f64,
}

/// Length of way over which its direction is judged (m).
const CHORD: f64 = 0.5;

/// Greatest curvature of a cubic that takes a vehicle into another lane.
fn swerve(off: f64, slope: f64, dist: f64) -> f64 {
    6.0 * off.abs() / (dist * dist) + 4.0 * slope.abs() / dist
}

impl LaneChanges {
    fn settled(&self, x: &VSnap) -> bool {
        let (s, lat, _) = self.poly[x.link].project(x.xy);
        let (_, tan) = self.poly[x.link].at(s);
        lat.abs() < 0.1 && dot(x.dir, perp(tan)).abs() < 0.05
    }

    /// Notes that `v` begins to move over, having been on its way as `x`.
    fn swerves(&mut self, v: usize, x: &VSnap, y: &VSnap, off: f64, dist: f64) {
        let at = self.poly[y.link].project(x.xy).0;
        let slope = dot(x.dir, perp(self.poly[y.link].at(at).1));
        let k = self.bent.entry(v).or_insert(0.0);
        *k = f64::max(*k, swerve(off, f64::abs(slope) + 0.05, dist));
        // it sets off in the direction it is facing
        self.last.insert(v, (x.dir, 0.0, x.xy));
    }

    fn lateral(&self, y: &VSnap) -> f64 {
        self.poly[y.link].project(y.xy).1
    }
}

impl Monitor for LaneChanges {
    fn start(&mut self, c: &Ctx, _s: &Snap) -> Result<(), Violation> {
        self.ls = Links::new(&c.sc.net);
        self.poly = c.sc.net.links.iter().map(|l| Poly::new(&l.curve)).collect();
        for p in &self.poly {
            for w in p.pts.windows(3) {
                let (a, b) = (sub(w[1], w[0]), sub(w[2], w[1]));
                let k = (perp(unit(a))[0] * unit(b)[0] + perp(unit(a))[1] * unit(b)[1]).abs() / norm(a);
                self.road_bend = f64::max(self.road_bend, k);
            }
        }
        // what the network says of itself
        for (i, id) in c.w.links.iter().enumerate() {
            let mut said: Vec<usize> = c.w.sim.get_link(*id).lane_changes().iter().map(|l| c.w.link_idx[l]).collect();
            let mut want = self.ls.side[i].clone();
            said.sort();
            want.sort();
            if said != want {
                return viol("lane-change-permission", format!("link {i} allows changes to {said:?}, its mask to {want:?}"));
            }
        }
        Ok(())
    }

    fn op(&mut self, c: &Ctx, op: &Op, done: bool, a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        if let (Op::LaneChange { v, link, dist: d }, true) = (op, done) {
            let (Some(x), Some(y)) = (a.get(*v), b.get(*v)) else { return Ok(()) };
            if y.link != *link {
                return viol("lane-change-ignored", format!("v{v} t={:.3} was sent from link {} to {link} but is on {}", b.t, x.link, y.link));
            }
            let (s, _, _) = self.poly[y.link].project(x.xy);
            // lengths along bends are not measured as exactly
            let straight = matches!(c.sc.net.links[*link].curve, crate::spec::Curve::Line(..));
            let slip = (s - y.pos).abs();
            p.max(if straight { "lane_change_slip_straight_m" } else { "lane_change_slip_bend_m" }, slip);
            if slip > if straight { 0.02 } else { 0.7 + 0.002 * c.w.len[*link] } {
                return viol("lane-change-slips", format!("v{v} t={:.3} is at {} of link {link}, beside the point at {s}", b.t, y.pos));
            }
            let from = self.lateral(y);
            let settled = self.settled(x);
            p.hit("lane_change_forced");
            self.on.insert(*v, Change { run: 0.0, dist: *d, from, best: 0.0, settled });
            self.swerves(*v, x, y, from, *d);
        }
        Ok(())
    }

    fn step(&mut self, c: &Ctx, dt: f64, a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        for (v, y) in b.iter() {
            let Some(x) = a.get(v) else { continue };
            let want = 0.5 * (x.vel + y.vel) * dt;
            if driven(c.w, &self.ls, x, y).is_none() {
                // a change of the vehicle's own accord
                let to = self.ls.side[x.link].clone();
                let ok = to.contains(&y.link) || to.iter().any(|s| self.ls.outs[*s].contains(&y.link));
                if !ok {
                    return viol("forbidden-lane-change", format!("v{v} t={:.3} from link {} to {}", b.t, x.link, y.link));
                }
                if let Some(ch) = self.on.get(&v) {
                    if ch.run < ch.dist - 1.0 {
                        return viol(
                            "lane-change-interrupted",
                            format!("v{v} t={:.3} begins another lane change {:.2} m into one of {} m", b.t, ch.run, ch.dist),
                        );
                    }
                }
                p.hit("lane_change_natural");
                let from = self.lateral(y);
                let settled = self.settled(x);
                self.on.insert(v, Change { run: want, dist: 30.0, from, best: 0.0, settled });
                self.swerves(v, x, y, from, 30.0);
            }
            // no sudden turns
            let (u, e, from) = *self.last.entry(v).or_insert((x.dir, 0.0, x.xy));
            let way = sub(y.xy, from);
            let far = norm(way);
            if far > CHORD {
                if let Some(k) = self.bent.get(&v) {
                    let turn = f64::acos(f64::clamp(dot(way, u) / far, -1.0, 1.0));
                    let most = (k + self.road_bend) * (far + e) + 0.01;
                    p.max("lane_change_turn_rad", turn);
                    p.max("lane_change_turn_excess_rad", turn - most);
                    if turn > most {
                        return viol(
                            "lane-change-kink",
                            format!("v{v} t={:.3} turns by {turn:.3} rad within {:.2} m on link {}, {most:.3} rad are to be expected", b.t, far + e, y.link),
                        );
                    }
                    if self.on.contains_key(&v) {
                        p.hit("lane_change_turn_checked");
                    }
                }
                self.last.insert(v, (unit(way), far, y.xy));
            }
            if driven(c.w, &self.ls, x, y).is_none() {
                continue;
            }
            if !self.on.contains_key(&v) {
                continue;
            }
            let lat = self.lateral(y);
            let ch = self.on.get_mut(&v).unwrap();
            ch.run += want;
            let done = 1.0 - lat / ch.from;
            let big = ch.from.abs() > 1.0 && ch.settled;
            if ch.run > ch.dist + 2.0 {
                p.hit("lane_change_completed");
                p.max("lane_change_residue_m", lat.abs());
                if lat.abs() > 0.02 {
                    return viol(
                        "lane-change-incomplete",
                        format!("v{v} t={:.3} is {lat:.3} m off its lane {:.2} m after beginning a change of {} m", b.t, ch.run, ch.dist),
                    );
                }
                self.on.remove(&v);
                self.bent.remove(&v);
            } else if big {
                p.max("lane_change_overshoot", done - 1.0);
                p.max("lane_change_backslide", ch.best - done);
                if done > 1.05 || done < ch.best - 0.1 {
                    return viol(
                        "lane-change-erratic",
                        format!("v{v} t={:.3} has covered {done:.3} of its way after {:.3} ({:.2} of {} m)", b.t, ch.best, ch.run, ch.dist),
                    );
                }
                ch.best = f64::max(ch.best, done);
            }
        }
        Ok(())
    }
}
