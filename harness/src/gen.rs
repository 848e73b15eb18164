//! Scenario generators: road networks, traffic, faults and clocks, all drawn
//! from one seeded stream.

use crate::geom::*;
use crate::prng::Rng;
use crate::spec::*;

/// A position and heading from which roads are drawn.
#[derive(Clone, Copy, Debug)]
pub struct Cur {
    pub p: P,
    pub h: f64,
}

fn dir(h: f64) -> P {
    [h.cos(), h.sin()]
}

impl Cur {
    pub fn new(x: f64, y: f64, h: f64) -> Cur {
        Cur { p: [x, y], h }
    }

    /// A straight piece, at a lateral offset (to the left).
    pub fn line(&self, len: f64, off: f64) -> (Curve, Cur) {
        let d = dir(self.h);
        let o = mul(perp(d), off);
        let a = add(self.p, o);
        let e = add(self.p, mul(d, len));
        let b = add(e, o);
        (Curve::Line([a, b]), Cur { p: e, h: self.h })
    }

    /// An arc of the given radius turning by `ang` (positive: left), at a lateral offset.
    pub fn arc(&self, radius: f64, ang: f64, off: f64) -> (Curve, Cur) {
        let d0 = dir(self.h);
        let d1 = dir(self.h + ang);
        let s = ang.signum();
        let c = add(self.p, mul(perp(d0), s * radius));
        let end = sub(c, mul(perp(d1), s * radius));
        // radius of this lane
        let r = radius - s * off;
        let a = sub(c, mul(perp(d0), s * r));
        let b = sub(c, mul(perp(d1), s * r));
        let k = 4.0 / 3.0 * (ang.abs() / 4.0).tan() * r;
        (
            Curve::Cubic([a, add(a, mul(d0, k)), sub(b, mul(d1, k)), b]),
            Cur { p: end, h: self.h + ang },
        )
    }
}

impl Net {
    pub fn link(&mut self, curve: Curve, limit: f64) -> usize {
        self.links.push(LinkSpec { curve, limit });
        self.links.len() - 1
    }
    pub fn conn(&mut self, a: usize, b: usize) {
        self.conns.push((a, b));
    }
    pub fn tag(&mut self, name: &str, v: usize) {
        self.tags.push((name.to_string(), v));
    }
    pub fn tagged(&self, name: &str) -> Vec<usize> {
        self.tags.iter().filter(|t| t.0 == name).map(|t| t.1).collect()
    }
    pub fn outs(&self, l: usize) -> Vec<usize> {
        self.conns.iter().filter(|c| c.0 == l).map(|c| c.1).collect()
    }
    pub fn ins(&self, l: usize) -> Vec<usize> {
        self.conns.iter().filter(|c| c.1 == l).map(|c| c.0).collect()
    }
}

pub fn vehicle(r: &mut Rng) -> VehSpec {
    let truck = r.chance(0.15);
    let length = if truck { r.f(8.0, 16.0) } else { r.f(3.0, 6.0) };
    VehSpec {
        width: r.f(1.6, 2.4),
        length,
        wheel_base: r.f(0.8, f64::min(0.5 * length, 2.5)),
        headway: if r.chance(0.2) { r.f(0.8, 1.0) } else { r.f(1.0, 2.5) },
        max_acc: r.f(1.0, 3.5),
        comf_dec: r.f(1.5, 3.5),
    }
}

/// The simulated clock: how long each step is.
#[derive(Clone, Debug)]
pub enum Clock {
    Fixed(f64),
    Jitter(f64, f64),
    /// Mostly fixed, with stalls (zero-length steps) and tiny steps.
    Stally(f64),
    /// Switches between several fixed steps.
    Mixed(Vec<f64>),
}

impl Clock {
    pub fn any(r: &mut Rng, max: f64) -> Clock {
        let fixed = [0.01, 0.02, 1.0 / 60.0, 1.0 / 30.0, 0.05, 0.06, 0.09, 0.1, 0.12, 0.15, 0.2, 0.25, 0.5, 1.0];
        let fixed: Vec<f64> = fixed.iter().copied().filter(|x| *x <= max).collect();
        match r.below(10) {
            0..=4 => Clock::Fixed(*r.pick(&fixed)),
            5..=6 => {
                let hi = r.f(0.05, max);
                Clock::Jitter(r.f(0.005, hi), hi)
            }
            7 => Clock::Stally(*r.pick(&fixed)),
            _ => Clock::Mixed((0..3).map(|_| *r.pick(&fixed)).collect()),
        }
    }

    pub fn next(&self, r: &mut Rng) -> f64 {
        match self {
            Clock::Fixed(x) => *x,
            Clock::Jitter(a, b) => r.f(*a, *b),
            Clock::Stally(x) => match r.below(20) {
                0 => 0.0,
                1 => 0.001,
                _ => *x,
            },
            Clock::Mixed(xs) => {
                // long stretches of the same step
                let i = (r.u64() >> 60) as usize;
                xs[if i < 14 { 0 } else { i % xs.len() }]
            }
        }
    }
}

/// Turns a timeline of operations into a program on the given clock.
pub fn program(r: &mut Rng, clock: &Clock, mut ev: Vec<(f64, Op)>, end: f64, max_steps: usize) -> Vec<Op> {
    ev.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    let mut out: Vec<Op> = vec![];
    let mut t = 0.0;
    let mut steps = 0;
    let mut it = ev.into_iter().peekable();
    while t < end && steps < max_steps {
        while let Some((at, _)) = it.peek() {
            if *at <= t {
                out.push(it.next().unwrap().1);
            } else {
                break;
            }
        }
        let dt = clock.next(r);
        t += dt;
        steps += 1;
        match out.last_mut() {
            Some(Op::Step { dt: d, n }) if *d == dt => *n += 1,
            _ => out.push(Op::Step { dt, n: 1 }),
        }
    }
    out
}

/// A single-lane road: a chain of links of various lengths, bends and limits.
pub struct RoadOpts {
    pub min_links: usize,
    pub max_links: usize,
    pub min_len: f64,
    pub max_len: f64,
    pub bends: bool,
    pub limits: (f64, f64),
    pub same_limit: bool,
}

impl Default for RoadOpts {
    fn default() -> Self {
        RoadOpts {
            min_links: 1,
            max_links: 7,
            min_len: 15.0,
            max_len: 250.0,
            bends: true,
            limits: (6.0, 33.0),
            same_limit: false,
        }
    }
}

pub fn piece(r: &mut Rng, c: Cur, len: f64, bends: bool) -> (Curve, Cur) {
    if bends && r.chance(0.4) && len > 12.0 {
        let ang = f64::min(1.4, len / 20.0) * if r.chance(0.5) { 1.0 } else { -1.0 };
        let radius = len / ang.abs();
        c.arc(radius, ang, 0.0)
    } else {
        c.line(len, 0.0)
    }
}

pub fn chain(r: &mut Rng, net: &mut Net, start: Cur, o: &RoadOpts) -> (Vec<usize>, Cur) {
    let n = r.int(o.min_links, o.max_links);
    let mut cur = start;
    let mut ids: Vec<usize> = vec![];
    let base = r.f(o.limits.0, o.limits.1);
    for _ in 0..n {
        let len = if r.chance(0.3) {
            r.f(o.min_len, f64::min(o.max_len, o.min_len * 3.0))
        } else {
            r.f(o.min_len, o.max_len)
        };
        let (cv, next) = piece(r, cur, len, o.bends);
        cur = next;
        let limit = if o.same_limit || r.chance(0.5) {
            base
        } else {
            r.f(f64::max(o.limits.0, base * 0.6), f64::min(o.limits.1, base * 1.5))
        };
        let id = net.link(cv, limit);
        if let Some(p) = ids.last() {
            net.conn(*p, id);
        }
        ids.push(id);
    }
    (ids, cur)
}

/// Faults that may be injected into a run, and how often (expected per 100 s).
#[derive(Clone, Debug, Default)]
pub struct Faults {
    pub freeze: f64,
    pub remove: f64,
    pub redest: f64,
    pub lane_change: f64,
    pub control: f64,
    pub randomise: f64,
}

impl Faults {
    /// A random subset is enabled per run (swarm style).
    pub fn swarm(r: &mut Rng, base: &Faults) -> Faults {
        let mut on = |x: f64| {
            if r.chance(0.6) {
                x * r.f(0.3, 2.0)
            } else {
                0.0
            }
        };
        Faults {
            freeze: on(base.freeze),
            remove: on(base.remove),
            redest: on(base.redest),
            lane_change: on(base.lane_change),
            control: on(base.control),
            randomise: on(base.randomise),
        }
    }
}

pub struct Traffic {
    pub sources: Vec<usize>,
    /// Possible destinations of vehicles from each source.
    pub dests: Vec<Vec<usize>>,
    pub vehicles: usize,
    /// Mean time between spawns on one source.
    pub headway: f64,
    pub no_dest: f64,
}

/// Poisson-ish fault times.
fn times(r: &mut Rng, per100: f64, t0: f64, t1: f64) -> Vec<f64> {
    let mut out = vec![];
    if per100 <= 0.0 {
        return out;
    }
    let mut t = t0;
    loop {
        t += -(1.0 - r.unit()).ln() * 100.0 / per100;
        if t >= t1 {
            return out;
        }
        out.push((t * 1000.0).round() / 1000.0);
    }
}

/// Spawns and faults up to `t_end`, then a `Quiesce` mark at which everything
/// frozen is released.
pub fn traffic(r: &mut Rng, net: &Net, tr: &Traffic, f: &Faults, t_end: f64) -> Vec<(f64, Op)> {
    let mut ev: Vec<(f64, Op)> = vec![];
    let mut clocks = vec![0.0; tr.sources.len()];
    let mut spawned: Vec<(usize, f64, usize)> = vec![];
    for v in 0..tr.vehicles {
        let s = r.below(tr.sources.len());
        let t = clocks[s];
        if t > t_end {
            continue;
        }
        clocks[s] += if r.chance(0.3) { r.f(1.0, 4.0) } else { r.f(0.5, 2.0) * tr.headway };
        let dest = if r.chance(tr.no_dest) || tr.dests[s].is_empty() {
            None
        } else {
            Some(*r.pick(&tr.dests[s]))
        };
        spawned.push((v, t, s));
        ev.push((
            t,
            Op::Spawn {
                v,
                veh: vehicle(r),
                link: tr.sources[s],
                dest,
            },
        ));
    }
    let n = spawned.len();
    // A vehicle that is likely to be around at time t.
    let who = |r: &mut Rng, t: f64| {
        let c: Vec<_> = spawned.iter().filter(|x| x.1 < t && x.1 > t - 60.0).collect();
        if c.is_empty() {
            r.below(n)
        } else {
            c[r.below(c.len())].0
        }
    };
    let mut frozen = vec![];
    for t in times(r, f.freeze, 0.5, t_end) {
        let v = who(r, t);
        frozen.push(v);
        ev.push((t, Op::Freeze { v, on: true }));
        if r.chance(0.15) && t + 0.5 < t_end {
            // frozen twice: the second request changes nothing
            ev.push((t + 0.5, Op::Freeze { v, on: true }));
        }
        if f.redest > 0.0 && r.chance(0.3) {
            // sent elsewhere while frozen
            let s = spawned.iter().find(|x| x.0 == v).unwrap().2;
            if !tr.dests[s].is_empty() {
                let link = *r.pick(&tr.dests[s]);
                ev.push((t + r.f(0.0, 4.0), Op::Dest { v, link }));
            }
        }
        if r.chance(0.8) {
            let d = if r.chance(0.5) { r.f(0.05, 3.0) } else { r.f(2.0, 20.0) };
            ev.push((t + d, Op::Freeze { v, on: false }));
        }
    }
    for t in times(r, f.remove, 1.0, t_end) {
        let v = who(r, t);
        ev.push((t, Op::Remove { v }));
    }
    for t in times(r, f.redest, 0.5, t_end) {
        let v = who(r, t);
        let s = spawned.iter().find(|x| x.0 == v).unwrap().2;
        if !tr.dests[s].is_empty() {
            let link = *r.pick(&tr.dests[s]);
            ev.push((t, Op::Dest { v, link }));
        }
    }
    for t in times(r, f.lane_change, 0.5, t_end) {
        let v = who(r, t);
        if net.groups.is_empty() {
            break;
        }
        // at times another follows before the first is over
        let mut t = t;
        loop {
            let g = r.below(net.groups.len());
            let link = *r.pick(&net.groups[g].0);
            let dist = r.f(20.0, 60.0);
            // one of these is a neighbour of the lane the vehicle is on, if any
            for (ids, _) in &net.groups {
                let i = ids.iter().position(|l| *l == link).unwrap_or(0).min(ids.len() - 1);
                ev.push((t, Op::LaneChange { v, link: ids[i], dist }));
            }
            t += r.f(0.2, 3.0);
            if t >= t_end || r.chance(0.6) {
                break;
            }
        }
    }
    for t in times(r, f.randomise, 0.5, t_end) {
        let stddev = *r.pick(&[0.0, 0.05, 0.1, 0.2, 0.5]);
        ev.push((t, Op::Randomise { stddev }));
    }
    frozen.sort();
    frozen.dedup();
    for v in frozen {
        ev.push((t_end, Op::Freeze { v, on: false }));
    }
    ev.push((t_end, Op::Quiesce));
    ev
}

/// Lane-change mask with the given permissions; `f(i, right)` for lane `i`.
pub fn lc_mask(n: usize, mut f: impl FnMut(usize, bool) -> bool) -> u32 {
    let mut m = 0;
    for i in 0..n {
        if i > 0 && f(i, false) {
            m |= 1 << (2 * i);
        }
        if i + 1 < n && f(i, true) {
            m |= 1 << (2 * i + 1);
        }
    }
    m
}
