use super::*;
use crate::geom::*;
use std::collections::{BTreeMap, BTreeSet};

/// Vehicles on a carriageway do not touch when lanes are changed with room to do so.
#[derive(Default)]
pub struct Beside {
    ls: Links,
    /// The carriageway each link is part of, counted along the road.
    group: Vec<Option<usize>>,
    /// Pairs of which one has cut in on the other.
    tight: BTreeSet<(usize, usize)>,
    /// How far each vehicle has driven since it last began to change lanes.
    since: BTreeMap<usize, f64>,
    /// Somebody was put into a lane right beside another vehicle in it, or so shortly before
    /// one that it drove past: those behind see one of the two only, and nothing can be
    /// said of what follows.
    jumbled: bool,
}

fn pair(v: usize, w: usize) -> (usize, usize) {
    (v.min(w), v.max(w))
}

impl Beside {
    /// Distance from the start of the lanes to the vehicle's middle.
    fn along(&self, c: &Ctx, y: &VSnap) -> f64 {
        let mut l = y.link;
        let mut s = y.pos;
        while let Some(m) = self.ls.ins[l].first() {
            s += c.w.len[*m];
            l = *m;
        }
        s
    }

    fn changing(&self, v: usize) -> bool {
        self.since.get(&v).map_or(false, |s| *s < 150.0)
    }

    fn swerves(&mut self, c: &Ctx, s: &Snap, v: usize, from: usize, y: &VSnap, p: &mut Probes) {
        let at = self.along(c, y);
        let mut tight = false;
        for (w, z) in s.iter().filter(|(w, _)| *w != v) {
            // it has been following those in its lane, if they keep it
            if z.link == from && !self.changing(w) {
                continue;
            }
            let d = self.along(c, z) - at;
            let gap = d.abs() - 0.5 * (y.len + z.len);
            // the one behind and the one ahead
            let (r, f, spec) = if d > 0.0 { (y, z, c.w.specs[v].unwrap()) } else { (z, y, c.w.specs[w].unwrap()) };
            let brake = f64::max(r.vel * r.vel - f.vel * f.vel, 0.0) / (2.0 * spec.comf_dec.min(4.0));
            self.jumbled |= gap < 0.0 && z.link == y.link;
            if gap < 5.0 + 0.8 * r.vel + brake {
                self.tight.insert(pair(v, w));
                tight = true;
            }
        }
        p.hit(if tight { "lane_change_tight" } else { "lane_change_with_room" });
        self.since.insert(v, 0.0);
    }
}

impl Monitor for Beside {
    fn start(&mut self, c: &Ctx, _s: &Snap) -> Result<(), Violation> {
        self.ls = Links::new(&c.sc.net);
        self.group = vec![None; c.sc.net.links.len()];
        for (i, (ids, _)) in c.sc.net.groups.iter().enumerate() {
            for l in ids {
                self.group[*l] = Some(i);
            }
        }
        Ok(())
    }

    fn op(&mut self, c: &Ctx, op: &Op, done: bool, a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        match op {
            Op::LaneChange { v, .. } if done => {
                let (Some(x), Some(y)) = (a.get(*v), b.get(*v)) else { return Ok(()) };
                self.swerves(c, b, *v, x.link, y, p);
            }
            Op::Spawn { v, .. } if done => {
                let Some(y) = b.get(*v) else { return Ok(()) };
                for (w, z) in b.iter().filter(|(w, _)| w != v) {
                    if dist(y.xy, z.xy) < 20.0 && (z.link == y.link || self.changing(w)) {
                        self.tight.insert(pair(*v, w));
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }

    fn step(&mut self, c: &Ctx, _dt: f64, a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        let mut swerved = vec![];
        for (v, y) in b.iter() {
            let Some(x) = a.get(v) else { continue };
            match driven(c.w, &self.ls, x, y) {
                Some(d) => {
                    self.since.entry(v).and_modify(|s| *s += d);
                }
                None => {
                    self.since.insert(v, 0.0);
                    swerved.push((v, x.link));
                }
            }
        }
        for (v, from) in swerved {
            self.swerves(c, b, v, from, b.get(v).unwrap(), p);
        }
        for (v, w) in &self.tight {
            let (Some(x), Some(y), Some(x0), Some(y0)) = (b.get(*v), b.get(*w), a.get(*v), a.get(*w)) else { continue };
            let one_lane = x.link == y.link || self.ls.outs[x.link].contains(&y.link) || self.ls.outs[y.link].contains(&x.link);
            if one_lane && (self.along(c, x) < self.along(c, y)) != (self.along(c, x0) < self.along(c, y0)) {
                self.jumbled = true;
            }
        }
        if self.jumbled {
            p.hit("jumbled");
            return Ok(());
        }
        let vs: Vec<_> = b.iter().collect();
        for i in 0..vs.len() {
            for j in 0..i {
                let ((v, x), (w, y)) = (vs[j], vs[i]);
                let reach = 0.5 * (x.len + y.len + x.wid + y.wid);
                let apart = dist(x.xy, y.xy);
                if apart > reach + 30.0 && !self.changing(v) && !self.changing(w) {
                    self.tight.remove(&pair(v, w));
                }
                if apart > reach {
                    continue;
                }
                let pen = x.body().penetration(&y.body());
                if self.tight.iter().any(|(a, b)| [v, w].contains(a) || [v, w].contains(b)) {
                    // whoever runs into one of these is caught up in it
                    if pen > 0.0 {
                        self.tight.insert(pair(v, w));
                    }
                } else {
                    if self.changing(v) || self.changing(w) {
                        p.hit("beside_one_changing");
                        if x.vel == 0.0 && y.vel == 0.0 {
                            p.hit("both_at_rest");
                        }
                    }
                    p.max("penetration_m", pen);
                    if pen > 0.05 {
                        return viol(
                            "collision-beside",
                            format!(
                                "t={:.3} v{v} (link {} pos {:.2} vel {:.2}) and v{w} (link {} pos {:.2} vel {:.2}) overlap by {pen:.3} m",
                                b.t, x.link, x.pos, x.vel, y.link, y.pos, y.vel
                            ),
                        );
                    }
                }
            }
        }
        Ok(())
    }
}
