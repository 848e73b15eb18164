use super::*;
use std::collections::BTreeSet;

/// Vehicles are neither lost, duplicated, moved about nor conjured up.
#[derive(Default)]
pub struct Conservation {
    ls: Links,
    removed: BTreeSet<usize>,
    arrived: BTreeSet<usize>,
    /// Former destinations of vehicles, and until when they count.
    former: Vec<(usize, usize, f64)>,
}

impl Conservation {
    fn listed(&self, c: &Ctx, s: &Snap) -> Result<(), Violation> {
        if let Some(x) = c.w.strays.first() {
            return viol("stray-vehicle", format!("t={:.3} {x}", s.t));
        }
        for (v, x) in s.iter() {
            if self.removed.contains(&v) || self.arrived.contains(&v) {
                return viol("vehicle-returned", format!("v{v} t={:.3} is back after it had left", s.t));
            }
            let spec = c.w.specs[v].unwrap();
            if (x.len - spec.length).abs() > 1e-9 || (x.wid - spec.width).abs() > 1e-9 {
                return viol(
                    "vehicle-changed",
                    format!("v{v} t={:.3} measures {} x {}, was added as {} x {}", s.t, x.len, x.wid, spec.length, spec.width),
                );
            }
        }
        Ok(())
    }
}

impl Monitor for Conservation {
    fn start(&mut self, c: &Ctx, _s: &Snap) -> Result<(), Violation> {
        self.ls = Links::new(&c.sc.net);
        Ok(())
    }

    fn op(&mut self, c: &Ctx, op: &Op, done: bool, a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        let mut gone = None;
        let mut new = None;
        match op {
            // plans are made anew every 0.3 s
            Op::Dest { v, .. } if done => {
                if let Some(VSnap { dest: Some(d), .. }) = a.get(*v) {
                    self.former.push((*v, *d, b.t + 0.3));
                }
            }
            Op::Remove { v } if done => gone = Some(*v),
            Op::Spawn { v, link, .. } if done => {
                new = Some(*v);
                match b.get(*v) {
                    Some(x) if x.link == *link && x.pos.abs() < 1e-9 && x.vel == 0.0 => {}
                    x => {
                        return viol("not-added", format!("v{v} t={:.3} was added to link {link} but is {x:?}", b.t));
                    }
                }
            }
            _ => {}
        }
        for (v, x) in a.iter() {
            match b.get(v) {
                Some(_) if gone == Some(v) => {
                    return viol("not-removed", format!("v{v} t={:.3} is still there after its removal", b.t))
                }
                None if gone != Some(v) => {
                    return viol("vehicle-lost", format!("v{v} t={:.3} vanished in {op:?}", b.t));
                }
                Some(y) if y.link != x.link && !matches!(op, Op::LaneChange { v: w, link, .. } if *w == v && *link == y.link) => {
                    return viol("vehicle-displaced", format!("v{v} t={:.3} went from link {} to {} in {op:?}", b.t, x.link, y.link));
                }
                _ => {}
            }
        }
        for (v, _) in b.iter() {
            if a.get(v).is_none() && new != Some(v) {
                return viol("vehicle-conjured", format!("v{v} t={:.3} appeared in {op:?}", b.t));
            }
        }
        if let Some(v) = gone {
            self.removed.insert(v);
            p.hit("removed");
        }
        self.listed(c, b)
    }

    fn step(&mut self, c: &Ctx, dt: f64, a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        for (v, x) in a.iter() {
            let Some(y) = b.get(v) else {
                let left = c.w.len[x.link] - x.pos;
                let reach = x.vel * dt + 0.5 * c.w.specs[v].unwrap().max_acc * dt * dt;
                if left > reach + 1e-6 {
                    return viol(
                        "vehicle-lost",
                        format!("v{v} t={:.3} vanished {left:.3} m before the end of link {}", b.t, x.link),
                    );
                }
                let former = self.former.iter().any(|(w, l, t)| *w == v && *l == x.link && b.t <= *t + 2.0 * dt);
                if x.dest != Some(x.link) && !former {
                    return viol(
                        "left-elsewhere",
                        format!("v{v} t={:.3} left at link {} but its destination is {:?}", b.t, x.link, x.dest),
                    );
                }
                p.hit("arrived");
                self.arrived.insert(v);
                continue;
            };
            if x.link != y.link {
                let side = |l: usize| self.ls.side[l].clone();
                let ok = self.ls.outs[x.link].contains(&y.link)
                    || side(x.link).contains(&y.link)
                    || side(x.link).iter().any(|s| self.ls.outs[*s].contains(&y.link));
                if !ok {
                    return viol(
                        "vehicle-displaced",
                        format!("v{v} t={:.3} went from link {} to {}, which do not touch", b.t, x.link, y.link),
                    );
                }
                p.hit("link_changed");
            }
            // the rounding at the ends of links is a matter of poses, not of existence
            if !(y.pos >= -0.5 && y.pos <= c.w.len[y.link] + 1e-6) {
                return viol(
                    "off-the-link",
                    format!("v{v} t={:.3} is at {} on link {} of length {}", b.t, y.pos, y.link, c.w.len[y.link]),
                );
            }
        }
        for (v, _) in b.iter() {
            if a.get(v).is_none() {
                return viol("vehicle-conjured", format!("v{v} t={:.3} appeared in a step", b.t));
            }
        }
        if b.frame != a.frame + 1 {
            return viol("frame-count", format!("t={:.3} frame {} follows {}", b.t, b.frame, a.frame));
        }
        p.add("presence_checked", b.iter().count() as u64);
        self.listed(c, b)
    }
}
