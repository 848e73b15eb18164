use super::*;
use crate::geom::{dist, Poly};
use traffic_sim::LinkId;

/// The several ways of asking the same thing give the same answer.
#[derive(Default)]
pub struct Consistent {
    ls: Links,
    lens: Vec<f64>,
    lights: Vec<LightSpec>,
}

impl Consistent {
    fn check(&self, c: &Ctx, s: &Snap, p: &mut Probes) -> Result<(), Violation> {
        if let Some(x) = c.w.strays.first() {
            return viol("stray", format!("t={:.3} {x}", s.t));
        }
        if let Some((v, w)) = c.w.reused {
            return viol("id-reused", format!("v{v} and v{w} were given the same id"));
        }
        for (v, x) in s.iter() {
            let same = (x.front - x.pos - 0.5 * x.len).abs() < 1e-9 && (x.pos - x.rear - 0.5 * x.len).abs() < 1e-9;
            if !same {
                return viol("extent", format!("v{v} t={:.3} mid {} front {} rear {} length {}", s.t, x.pos, x.front, x.rear, x.len));
            }
            if x.stopped != (x.vel < 0.1) {
                return viol("stopped-flag", format!("v{v} t={:.3} at {} m/s says stopped={}", s.t, x.vel, x.stopped));
            }
            let id = c.w.id(v).unwrap();
            let y = c.w.sim.get_vehicle(id);
            let same = y.id() == id
                && y.link_id() == Some(c.w.links[x.link])
                && [y.pos_mid(), y.pos_front(), y.pos_rear(), y.vel()] == [x.pos, x.front, x.rear, x.vel]
                && [y.position().x, y.position().y] == x.xy
                && [y.direction().x, y.direction().y] == x.dir
                && [y.length(), y.width()] == [x.len, x.wid]
                && c.w.link_idx.get(&y.destination()).copied() == x.dest;
            if !same {
                return viol("two-answers", format!("v{v} t={:.3} differs when asked for by id", s.t));
            }
            let spec = c.w.specs[v].unwrap();
            if x.len != spec.length || x.wid != spec.width {
                return viol("resized", format!("v{v} t={:.3} is {} m by {} m, was added as {} m by {} m", s.t, x.len, x.wid, spec.length, spec.width));
            }
            p.hit("observed_consistent");
        }
        Ok(())
    }

    /// Everything the links say of themselves is what they were given.
    fn check_links(&self, c: &Ctx) -> Result<(), Violation> {
        let (net, w) = (&c.sc.net, c.w);
        // those there so far
        let n = w.links.len();
        let idx = |ids: &[LinkId]| {
            let mut v: Vec<usize> = ids.iter().map(|l| w.link_idx.get(l).copied().unwrap_or(usize::MAX)).collect();
            v.sort();
            v
        };
        let listed = idx(&w.sim.iter_links().map(|l| l.id()).collect::<Vec<_>>());
        if listed != (0..n).collect::<Vec<_>>() {
            return viol("links-listed", format!("{n} links were added; those listed are {listed:?}"));
        }
        for (i, spec) in net.links.iter().take(n).enumerate() {
            let l = w.sim.get_link(w.links[i]);
            if l.id() != w.links[i] {
                return viol("link-id", format!("link {i} goes by another id"));
            }
            if (l.length() - self.lens[i]).abs() > 0.1 + 0.01 * self.lens[i] {
                return viol("link-length", format!("link {i} is {:.3} m long, says {:.3}", self.lens[i], l.length()));
            }
            if l.speed_limit() != spec.limit {
                return viol("link-limit", format!("link {i} was given the limit {}, says {}", spec.limit, l.speed_limit()));
            }
            if (l.cost() as f64 - 10.0 * l.length() / spec.limit).abs() > 1.0 {
                return viol("link-cost", format!("link {i} takes {:.2} s, says {}", l.length() / spec.limit, l.cost()));
            }
            let (a, b) = (l.curve().sample_centre(0.0).pos, l.curve().sample_centre(l.length()).pos);
            if dist([a.x, a.y], spec.curve.start()) > 0.05 || dist([b.x, b.y], spec.curve.end()) > 0.05 {
                return viol("link-ends", format!("link {i} leads from {a:?} to {b:?}"));
            }
            let sorted = |v: &[usize]| {
                let mut v: Vec<usize> = v.iter().copied().filter(|l| *l < n).collect();
                v.sort();
                v
            };
            let reach = |next: &dyn Fn(usize) -> Vec<usize>| {
                let mut seen = vec![i];
                let mut k = 0;
                while k < seen.len() {
                    for n in next(seen[k]) {
                        if !seen.contains(&n) {
                            seen.push(n);
                        }
                    }
                    k += 1;
                }
                sorted(&seen)
            };
            let back = |l: usize| (0..net.links.len()).filter(|k| self.ls.side[*k].contains(&l)).collect::<Vec<_>>();
            for (what, says, given) in [
                ("links into it", l.links_in(), sorted(&self.ls.ins[i])),
                ("links out of it", l.links_out(), sorted(&self.ls.outs[i])),
                ("lane changes", l.lane_changes(), sorted(&self.ls.side[i])),
                ("lanes reachable from it", l.reachable_lanes(), reach(&|l| self.ls.side[l].clone())),
                ("lanes it is reachable from", l.reachable_from_lanes(), reach(&back)),
            ] {
                if idx(says) != given {
                    return viol("link-connections", format!("link {i}, {what}: was given {given:?}, says {:?}", idx(says)));
                }
            }
        }
        let lights: Vec<_> = w.sim.iter_lights().collect();
        let known: Vec<_> = w.light_ids.iter().flatten().collect();
        if lights.len() != known.len() || known.iter().any(|id| lights.iter().filter(|l| l.0 == **id).count() != 1) {
            return viol("lights-listed", format!("{} lights were added; {} are listed", known.len(), lights.len()));
        }
        for (k, spec) in self.lights.iter().enumerate() {
            let Some(id) = w.light_ids[k] else { continue };
            let l = lights.iter().find(|l| l.0 == id).unwrap().1;
            let order: Vec<usize> = l.state().map(|x| x.0).collect();
            if order != (0..spec.movements.len()).collect::<Vec<_>>() {
                return viol("light-movements", format!("light {k} has {} movements, says {order:?}", spec.movements.len()));
            }
        }
        Ok(())
    }
}

impl Monitor for Consistent {
    fn start(&mut self, c: &Ctx, _s: &Snap) -> Result<(), Violation> {
        self.ls = Links::new(&c.sc.net);
        self.lens = c.sc.net.links.iter().map(|l| Poly::new(&l.curve).len()).collect();
        self.lights = c.sc.net.lights.clone();
        self.check_links(c)
    }

    fn op(&mut self, c: &Ctx, op: &Op, done: bool, a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        let mut changed = None;
        match op {
            Op::Spawn { v, .. } | Op::Dest { v, .. } if done => changed = Some(*v),
            Op::AddLight { light } if done => self.lights.push(light.clone()),
            _ => {}
        }
        match op {
            Op::Spawn { v, dest: Some(link), .. } | Op::Dest { v, link } if done => {
                if b.get(*v).map(|x| x.dest) != Some(Some(*link)) {
                    return viol("destination-lost", format!("v{v} t={:.3} was sent to link {link}: {:?}", b.t, b.get(*v)));
                }
                p.hit("destination_set");
            }
            _ => {}
        }
        for (v, x) in a.iter() {
            match b.get(v) {
                Some(y) if changed != Some(v) && x.dest != y.dest => {
                    return viol("destination-lost", format!("v{v} t={:.3} bound for {:?}, then {:?}, by {op:?}", b.t, x.dest, y.dest));
                }
                _ => {}
            }
        }
        self.check_links(c)?;
        p.hit("links_consistent");
        self.check(c, b, p)
    }
    fn step(&mut self, c: &Ctx, _dt: f64, a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        for (v, y) in b.iter() {
            if let Some(x) = a.get(v) {
                if x.dest != y.dest {
                    return viol("destination-lost", format!("v{v} t={:.3} bound for {:?}, then {:?}", b.t, x.dest, y.dest));
                }
            }
        }
        self.check(c, b, p)
    }
    fn finish(&mut self, c: &Ctx, _s: &Snap, _p: &mut Probes) -> Result<(), Violation> {
        self.check_links(c)
    }
}
