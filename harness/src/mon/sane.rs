use super::*;
use std::collections::BTreeMap;

/// Whatever happens, what is reported makes sense.
#[derive(Default)]
pub struct Sane {
    ls: Links,
    lo: [f64; 2],
    hi: [f64; 2],
    fastest: f64,
    /// By how much a single step may overshoot.
    overshoot: f64,
    /// When each vehicle was last added, sent elsewhere or put in another lane.
    moved: BTreeMap<usize, f64>,
}

/// A vehicle sent elsewhere too late to stop drives off the end of the road;
/// after this many seconds it has had time to stop.
const LATE: f64 = 30.0;

impl Sane {
    fn look(&self, c: &Ctx, s: &Snap, p: &mut Probes) -> Result<(), Violation> {
        if let Some(x) = c.w.strays.first() {
            return viol("stray", format!("t={:.3} {x}", s.t));
        }
        for (v, x) in s.iter() {
            p.hit("sanity_checked");
            let nums = [x.pos, x.front, x.rear, x.vel, x.xy[0], x.xy[1], x.dir[0], x.dir[1]];
            let rear = x.rear_coords.iter().flatten();
            if nums.iter().chain(rear).any(|n| !n.is_finite()) {
                return viol("not-a-number", format!("v{v} t={:.3}: {x:?}", s.t));
            }
            if !(x.vel >= 0.0 && x.vel <= self.fastest + 0.1 + self.overshoot) {
                return viol("speed", format!("v{v} t={:.3} drives at {} m/s; no limit exceeds {:.2}", s.t, x.vel, self.fastest / 1.25));
            }
            if (x.dir[0].hypot(x.dir[1]) - 1.0).abs() > 1e-6 {
                return viol("heading", format!("v{v} t={:.3} heads {:?}", s.t, x.dir));
            }
            if !(x.pos >= -60.0 && x.pos <= c.w.len[x.link] + 60.0) {
                return viol("off-the-link", format!("v{v} t={:.3} is at {} on link {} of {}", s.t, x.pos, x.link, c.w.len[x.link]));
            }
            let out = (0..2).any(|k| x.xy[k] < self.lo[k] - 120.0 || x.xy[k] > self.hi[k] + 120.0);
            if out {
                return viol("off-the-map", format!("v{v} t={:.3} is at {:?}", s.t, x.xy));
            }
        }
        Ok(())
    }
}

impl Monitor for Sane {
    fn start(&mut self, c: &Ctx, _s: &Snap) -> Result<(), Violation> {
        self.ls = Links::new(&c.sc.net);
        self.lo = [f64::INFINITY; 2];
        self.hi = [-f64::INFINITY; 2];
        for l in &c.sc.net.links {
            for k in 0..=16 {
                let p = l.curve.at(k as f64 / 16.0);
                for i in 0..2 {
                    self.lo[i] = self.lo[i].min(p[i]);
                    self.hi[i] = self.hi[i].max(p[i]);
                }
            }
            self.fastest = self.fastest.max(1.25 * l.limit);
        }
        Ok(())
    }

    fn op(&mut self, c: &Ctx, op: &Op, done: bool, a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        let op = if let Op::Wild { op } = op { op } else { op };
        for (v, _) in a.iter() {
            let removed = matches!(op, Op::Remove { v: w } if *w == v);
            if b.get(v).is_some() == removed {
                return viol("vehicle-lost", format!("v{v} t={:.3} in {op:?}", b.t));
            }
        }
        if let Op::Spawn { v, .. } | Op::Dest { v, .. } | Op::LaneChange { v, .. } = op {
            self.moved.insert(*v, b.t);
        }
        if let (Op::Spawn { v, .. }, true) = (op, done) {
            if b.get(*v).is_none() {
                return viol("not-added", format!("v{v} t={:.3}", b.t));
            }
        }
        self.look(c, b, p)
    }

    fn step(&mut self, c: &Ctx, dt: f64, a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        if dt > 0.2 {
            self.overshoot = self.overshoot.max(3.5 * dt);
        }
        for (v, x) in a.iter() {
            let last = |l: usize| Some(l) == x.dest || self.ls.side[l].iter().any(|s| Some(*s) == x.dest);
            // nor does one stop that thinks it can brake harder than it can
            let late = || a.t < self.moved.get(&v).map_or(0.0, |t| t + LATE) || c.w.specs[v].map_or(false, |s| s.comf_dec > 4.5);
            if b.get(v).is_none() && !last(x.link) && !late() {
                return viol("vehicle-lost", format!("v{v} t={:.3} left from link {}, bound for {:?}", b.t, x.link, x.dest));
            }
        }
        self.look(c, b, p)
    }
}
