use super::*;
use crate::geom::*;
use std::collections::BTreeMap;

/// Vehicles obey the kinematic laws of their own speed and acceleration limits.
#[derive(Default)]
pub struct Kinematics {
    ls: Links,
}

impl Monitor for Kinematics {
    fn start(&mut self, c: &Ctx, _s: &Snap) -> Result<(), Violation> {
        self.ls = Links::new(&c.sc.net);
        Ok(())
    }

    fn step(&mut self, c: &Ctx, dt: f64, a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        for (v, y) in b.iter() {
            let Some(x) = a.get(v) else { continue };
            let spec = c.w.specs[v].unwrap();
            let e = 1e-9 * (1.0 + x.vel);
            if !(y.vel >= 0.0 && y.vel.is_finite() && y.pos.is_finite()) {
                return viol("not-finite", format!("v{v} t={:.3} pos={} vel={}", b.t, y.pos, y.vel));
            }
            if y.vel > x.vel + spec.max_acc * dt + e {
                return viol(
                    "accelerates-too-hard",
                    format!("v{v} t={:.3} {} -> {} in {dt}s, max_acc={}", b.t, x.vel, y.vel, spec.max_acc),
                );
            }
            if y.vel < x.vel - MAX_DECEL * dt - e {
                return viol(
                    "brakes-too-hard",
                    format!("v{v} t={:.3} {} -> {} in {dt}s", b.t, x.vel, y.vel),
                );
            }
            if x.vel - y.vel > 0.95 * MAX_DECEL * dt && dt > 0.0 {
                p.hit("braking_hard");
            }
            let want = 0.5 * (x.vel + y.vel) * dt;
            match driven(c.w, &self.ls, x, y) {
                Some(d) => {
                    p.hit("kin_checked");
                    if x.link != y.link {
                        p.hit("kin_link_crossed");
                    }
                    if (d - want).abs() > 1e-6 {
                        return viol(
                            "distance-differs-from-speed",
                            format!(
                                "v{v} t={:.3} drove {d} m along its links but its speed {}..{} over {dt}s makes {want} m (link {} -> {})",
                                b.t, x.vel, y.vel, x.link, y.link
                            ),
                        );
                    }
                }
                None => {
                    p.hit("kin_lane_changed");
                    // the lanes may differ in length where they bend
                    let d = dist(x.xy, y.xy);
                    if (d - want).abs() > 0.25 * want + 0.05 {
                        return viol(
                            "distance-differs-from-speed",
                            format!("v{v} t={:.3} moved {d} m changing lanes but its speed makes {want} m", b.t),
                        );
                    }
                }
            }
        }
        Ok(())
    }

    fn op(&mut self, _c: &Ctx, op: &Op, done: bool, a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        if !done {
            return Ok(());
        }
        for (v, y) in b.iter() {
            let Some(x) = a.get(v) else { continue };
            let same = x.vel == y.vel && x.xy == y.xy && x.dir == y.dir;
            let place = x.pos == y.pos && x.link == y.link;
            let mine = matches!(op, Op::LaneChange { v: w, .. } if *w == v);
            p.hit("kin_op_checked");
            if !same || !(place || mine) {
                return viol("moved-without-time", format!("v{v} t={:.3} by {op:?}: {x:?} -> {y:?}", b.t));
            }
        }
        Ok(())
    }
}

/// Vehicles in one lane never overlap nor overtake one another.
#[derive(Default)]
pub struct Following {
    ls: Links,
}

impl Following {
    fn pair(&self, a: &Snap, b: &Snap, f: (usize, &VSnap), l: (usize, &VSnap), add: f64, p: &mut Probes) -> Result<(), Violation> {
        let gap = l.1.rear + add - f.1.front;
        p.max("closest_gap_neg", -gap);
        if gap < 5.0 {
            p.hit("close_following");
        }
        if gap < 0.0 {
            return viol(
                "rear-end-collision",
                format!(
                    "t={:.3} follower v{} (pos {:.3} vel {:.3}) and leader v{} (pos {:.3} vel {:.3}) on link {}: gap {:.4}",
                    b.t, f.0, f.1.pos, f.1.vel, l.0, l.1.pos + add, l.1.vel, f.1.link, gap
                ),
            );
        }
        if let (Some(x), Some(y)) = (a.get(f.0), a.get(l.0)) {
            if x.link == y.link && x.pos > y.pos {
                return viol("overtaking-in-lane", format!("t={:.3} v{} and v{} swapped places", b.t, f.0, l.0));
            }
        }
        Ok(())
    }
}

impl Monitor for Following {
    fn start(&mut self, c: &Ctx, _s: &Snap) -> Result<(), Violation> {
        self.ls = Links::new(&c.sc.net);
        Ok(())
    }

    fn step(&mut self, c: &Ctx, _dt: f64, a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        let mut by_link: BTreeMap<usize, Vec<(usize, &VSnap)>> = BTreeMap::new();
        for (v, s) in b.iter() {
            by_link.entry(s.link).or_default().push((v, s));
        }
        for (_, vs) in by_link.iter_mut() {
            vs.sort_by(|x, y| x.1.pos.total_cmp(&y.1.pos));
        }
        for (link, vs) in &by_link {
            for w in vs.windows(2) {
                p.hit("gap_checked");
                self.pair(a, b, w[0], w[1], 0.0, p)?;
            }
            // the first vehicle of a lane with one continuation, and the last one there
            let mut add = c.w.len[*link];
            let mut l = *link;
            while self.ls.outs[l].len() == 1 && self.ls.ins[self.ls.outs[l][0]].len() == 1 && add < 300.0 {
                l = self.ls.outs[l][0];
                if let Some(next) = by_link.get(&l) {
                    p.hit("gap_checked_across");
                    self.pair(a, b, *vs.last().unwrap(), next[0], add, p)?;
                    break;
                }
                add += c.w.len[l];
            }
        }
        Ok(())
    }
}

/// A frozen vehicle brakes as hard as it can and then stays put.
#[derive(Default)]
pub struct Freezing {
    /// Time since the freeze was asked for, and where the vehicle came to rest.
    on: BTreeMap<usize, (f64, Option<P>)>,
}

impl Monitor for Freezing {
    fn op(&mut self, _c: &Ctx, op: &Op, done: bool, a: &Snap, b: &Snap, _p: &mut Probes) -> Result<(), Violation> {
        if let Op::Freeze { v, on } = op {
            if done {
                if *on {
                    self.on.entry(*v).or_insert((0.0, None));
                } else {
                    self.on.remove(v);
                }
            }
        }
        for (v, s) in b.iter() {
            if s.frozen != self.on.contains_key(&v) {
                return viol("frozen-flag", format!("v{v} t={:.3} reports frozen={} after {op:?}", b.t, s.frozen));
            }
            let _ = a;
        }
        Ok(())
    }

    fn step(&mut self, _c: &Ctx, dt: f64, a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        for (v, y) in b.iter() {
            let Some((since, rest)) = self.on.get_mut(&v) else {
                if y.frozen {
                    return viol("frozen-flag", format!("v{v} t={:.3} reports frozen though it is not", b.t));
                }
                continue;
            };
            if !y.frozen {
                return viol("frozen-flag", format!("v{v} t={:.3} is frozen but reports it is not", b.t));
            }
            let Some(x) = a.get(v) else { continue };
            if *since > REFRESH + 1e-6 {
                let want = f64::max(x.vel - MAX_DECEL * dt, 0.0);
                p.hit(if x.vel > 0.0 { "frozen_braking" } else { "frozen_at_rest" });
                if (y.vel - want).abs() > 1e-9 * (1.0 + x.vel) {
                    return viol(
                        "frozen-not-braking",
                        format!("v{v} t={:.3} frozen for {since:.3}s: speed {} -> {} in {dt}s, expected {want}", b.t, x.vel, y.vel),
                    );
                }
                match rest {
                    Some(at) if dist(*at, y.xy) > 1e-6 => {
                        return viol(
                            "frozen-moves",
                            format!("v{v} t={:.3} came to rest frozen and has moved {} m since", b.t, dist(*at, y.xy)),
                        );
                    }
                    None if y.vel == 0.0 => *rest = Some(y.xy),
                    _ => {}
                }
            }
            *since += dt;
        }
        Ok(())
    }
}

/// Released vehicles with an empty road ahead of them get going again.
#[derive(Default)]
pub struct Release {
    ls: Links,
    /// Whether nothing but other vehicles can hold a vehicle up.
    plain: bool,
    since: BTreeMap<usize, f64>,
}

impl Monitor for Release {
    fn start(&mut self, c: &Ctx, _s: &Snap) -> Result<(), Violation> {
        self.ls = Links::new(&c.sc.net);
        let n = &c.sc.net;
        self.plain = n.lights.is_empty() && n.controls.is_empty() && n.conv.is_empty() && n.groups.is_empty();
        Ok(())
    }

    fn op(&mut self, _c: &Ctx, op: &Op, done: bool, a: &Snap, _b: &Snap, _p: &mut Probes) -> Result<(), Violation> {
        if !self.plain {
            return Ok(());
        }
        if let (Op::Freeze { v, on }, true) = (op, done) {
            if *on {
                self.since.remove(v);
            } else if a.get(*v).map_or(false, |x| x.frozen) {
                self.since.insert(*v, 0.0);
            }
        }
        Ok(())
    }

    fn step(&mut self, c: &Ctx, dt: f64, a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        let mut done = vec![];
        for (v, since) in self.since.iter_mut() {
            let (Some(x), Some(y)) = (a.get(*v), b.get(*v)) else {
                done.push(*v);
                continue;
            };
            // anything within 60 m ahead excuses it
            let mut near: Vec<usize> = vec![];
            let mut todo = vec![(y.link, c.w.len[y.link] - y.pos)];
            while let Some((l, ahead)) = todo.pop() {
                if ahead < 60.0 {
                    near.extend(&self.ls.outs[l]);
                    todo.extend(self.ls.outs[l].iter().map(|o| (*o, ahead + c.w.len[*o])));
                }
            }
            let blocked = b
                .iter()
                .any(|(w, z)| w != *v && (near.contains(&z.link) || z.link == y.link && z.pos > y.pos));
            if blocked || y.dest.is_none() {
                done.push(*v);
                continue;
            }
            *since += dt;
            if *since > 0.7 {
                p.hit("release_checked");
                if y.vel < 0.2 && y.vel <= x.vel {
                    return viol(
                        "released-but-stuck",
                        format!("v{v} t={:.3} was released {:.2} s ago, the road is clear, but its speed is {}", b.t, since, y.vel),
                    );
                }
                done.push(*v);
            }
        }
        for v in done {
            self.since.remove(&v);
        }
        Ok(())
    }
}

/// The world pose of a vehicle is where its link and position say it is.
#[derive(Default)]
pub struct Pose {
    ls: Links,
    poly: Vec<Poly>,
    /// Distance driven since the vehicle appeared or last changed lanes.
    straight: BTreeMap<usize, f64>,
    /// How far the heading of each may lag behind the road in a bend (rad).
    lag: BTreeMap<usize, f64>,
}

pub const LANE_CHANGE_TAIL: f64 = 70.0;

impl Monitor for Pose {
    fn start(&mut self, c: &Ctx, _s: &Snap) -> Result<(), Violation> {
        self.ls = Links::new(&c.sc.net);
        self.poly = c.sc.net.links.iter().map(|l| Poly::new(&l.curve)).collect();
        for (i, p) in self.poly.iter().enumerate() {
            let d = (p.len() - c.w.len[i]).abs();
            if d > 0.02 * p.len() + 0.1 {
                return viol("link-length", format!("link {i} is {} m long, its curve {} m", c.w.len[i], p.len()));
            }
        }
        Ok(())
    }

    fn op(&mut self, _c: &Ctx, op: &Op, done: bool, _a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        if let (Op::LaneChange { v, .. }, true) = (op, done) {
            self.straight.insert(*v, -LANE_CHANGE_TAIL);
            self.lag.insert(*v, 1.0);
        }
        if let (Op::Spawn { v, link, .. }, true) = (op, done) {
            if let Some(y) = b.get(*v) {
                let (q, tan) = self.poly[*link].at(0.0);
                p.hit("pose_spawn_checked");
                if dist(q, y.xy) > 0.01 || dot(tan, y.dir) < 0.999 || y.vel != 0.0 || y.pos != 0.0 {
                    return viol("spawn-pose", format!("v{v} t={:.3} was added at {} m, {:?}, heading {:?}, at {} m/s", b.t, y.pos, y.xy, y.dir, y.vel));
                }
            }
        }
        Ok(())
    }

    fn step(&mut self, c: &Ctx, dt: f64, a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        for (v, y) in b.iter() {
            let Some(x) = a.get(v) else { continue };
            let all = [
                y.xy[0], y.xy[1], y.dir[0], y.dir[1],
                y.rear_coords[0][0], y.rear_coords[0][1], y.rear_coords[1][0], y.rear_coords[1][1],
            ];
            if !all.iter().all(|x| x.is_finite()) {
                return viol("pose-not-finite", format!("v{v} t={:.3} {:?}", b.t, all));
            }
            if (norm(y.dir) - 1.0).abs() > 1e-6 {
                return viol("heading-not-unit", format!("v{v} t={:.3} {:?}", b.t, y.dir));
            }
            // continuity
            let step = 0.5 * (x.vel + y.vel) * dt;
            let d = dist(x.xy, y.xy);
            let changing = self.straight.get(&v).map_or(false, |x| *x < 0.0);
            p.max(if changing { "pose_jump_changing_m" } else { "pose_jump_m" }, d - step);
            if d > if changing { 1.3 } else { 1.15 } * step + 0.12 {
                return viol("pose-jumps", format!("v{v} t={:.3} moved {d} m in a step worth {step} m", b.t));
            }
            let turn = dot(x.dir, y.dir).clamp(-1.0, 1.0).acos();
            let wb = c.w.specs[v].unwrap().wheel_base;
            p.max("pose_turn_excess", turn - d / wb);
            if turn > d / wb + 0.02 {
                return viol("heading-jumps", format!("v{v} t={:.3} turned by {turn} rad over {d} m", b.t));
            }
            let Some(along) = driven(c.w, &self.ls, x, y) else {
                self.straight.insert(v, -LANE_CHANGE_TAIL);
                self.lag.insert(v, 1.0);
                continue;
            };
            let tan = |s: &VSnap| self.poly[s.link].at(s.pos * self.poly[s.link].len() / c.w.len[s.link]).1;
            let bend = dot(tan(x), tan(y)).clamp(-1.0, 1.0).acos();
            let lag = self.lag.entry(v).or_insert(0.0);
            *lag = *lag * f64::exp(-0.7 * d / wb) + bend;
            let run = self.straight.entry(v).or_insert(0.0);
            *run += along;
            if *run < 0.0 {
                continue;
            }
            let poly = &self.poly[y.link];
            // the reported position, scaled to the true length of the curve
            let (q, tan) = poly.at(y.pos * poly.len() / c.w.len[y.link]);
            let e = sub(y.xy, q);
            let (lat, long) = (dot(e, perp(tan)).abs(), dot(e, tan).abs());
            p.hit("pose_checked");
            p.max("pose_lat_err_m", lat);
            p.max("pose_long_err_m", long);
            p.max("pose_long_err_share", long / (0.2 + 0.0015 * poly.len()));
            if lat > 0.03 {
                return viol(
                    "off-centre-line",
                    format!("v{v} t={:.3} is {lat:.3} m beside the centre line of link {} at {:.3}", b.t, y.link, y.pos),
                );
            }
            if long > 0.2 + 0.0015 * poly.len() {
                return viol(
                    "pose-lags-position",
                    format!("v{v} t={:.3} is {long:.3} m along the road from position {:.3} of link {}", b.t, y.pos, y.link),
                );
            }
            let err = dot(tan, y.dir).clamp(-1.0, 1.0).acos();
            p.max("pose_heading_err_rad", err);
            p.max("pose_heading_excess_rad", err - *lag);
            if err > *lag + 0.1 {
                return viol("heading-off-road", format!("v{v} t={:.3} heads {:?}, the road {:?}", b.t, y.dir, tan));
            }
            // rear line: half a length behind the centre, at least as wide as the vehicle
            let m = mul(add(y.rear_coords[0], y.rear_coords[1]), 0.5);
            let back = dot(sub(y.xy, m), tan);
            let wide = dist(y.rear_coords[0], y.rear_coords[1]);
            p.max("pose_rear_err_m", (back - 0.5 * y.len).abs());
            if (back - 0.5 * y.len).abs() > 0.12 || wide < y.wid - 0.01 {
                return viol(
                    "rear-line",
                    format!("v{v} t={:.3} rear line is {back:.3} m behind, {wide:.3} m wide; vehicle is {} x {}", b.t, y.len, y.wid),
                );
            }
        }
        Ok(())
    }
}

/// Speed limits: nobody accelerates beyond the limit of the link they are on.
#[derive(Default)]
pub struct SpeedLimit {
    ls: Links,
    on: BTreeMap<usize, (usize, f64)>,
}

impl Monitor for SpeedLimit {
    fn start(&mut self, c: &Ctx, _s: &Snap) -> Result<(), Violation> {
        self.ls = Links::new(&c.sc.net);
        Ok(())
    }

    fn step(&mut self, c: &Ctx, dt: f64, a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        for (v, y) in b.iter() {
            let Some(x) = a.get(v) else { continue };
            let limit = c.sc.net.links[y.link].limit;
            let on = self.on.entry(v).or_insert((y.link, 0.0));
            if on.0 != y.link {
                *on = (y.link, 0.0);
                // entering a slower link
                let prev = c.sc.net.links[x.link].limit;
                let spec = c.w.specs[v].unwrap();
                let need = (prev * prev - limit * limit) / (2.0 * spec.comf_dec);
                let room = c.w.len[x.link] - 1.0;
                if prev > limit && need < f64::min(5.0 * limit, room) - 0.5 * y.len - 3.0 {
                    p.hit("slowed_for_link");
                    p.max("entry_speed_over_limit", y.vel / limit);
                    // braking begins with the first update at which it is due
                    let late = 2.0 * spec.comf_dec * y.vel * (REFRESH + 2.0 * dt);
                    if y.vel > f64::max(1.06 * limit + 0.3, (limit * limit + late).sqrt() + 0.1) {
                        return viol(
                            "enters-slower-link-too-fast",
                            format!("v{v} t={:.3} enters link {} (limit {limit}) at {:.3} m/s", b.t, y.link, y.vel),
                        );
                    }
                }
                continue;
            }
            if on.1 > REFRESH + 1e-6 {
                p.hit("limit_checked");
                if y.vel > f64::max(x.vel, limit * (1.0 + 1e-9)) + 1e-9 {
                    return viol(
                        "exceeds-limit",
                        format!("v{v} t={:.3} link {} limit {limit}: {} -> {}", b.t, y.link, x.vel, y.vel),
                    );
                }
            }
            on.1 += dt;
        }
        Ok(())
    }
}

/// A lone vehicle makes its way at the speed the limits allow.
#[derive(Default)]
pub struct FreeFlow {
    /// Whether there is one way only.
    plain: bool,
    /// When each vehicle set out, and the links it has taken since.
    began: BTreeMap<usize, (f64, Vec<usize>)>,
}

/// When a vehicle that drives as the documentation says is through with each link.
pub fn ideal_trip(net: &Net, len: &[f64], path: &[usize], s: &VehSpec) -> Vec<f64> {
    let h = 0.02;
    let (mut t, mut v) = (0.0, 0.0f64);
    let mut pos = 0.0;
    let mut out = vec![];
    while t < 5000.0 {
        let i = out.len();
        let limit = net.links[path[i]].limit;
        let mut acc = s.max_acc * (1.0 - (v / limit).powi(4));
        let mut d = len[path[i]] - pos;
        let mut between = 0.0;
        for j in i + 1..path.len() {
            let l2 = net.links[path[j]].limit;
            // drivers look five seconds ahead
            if d - 0.5 * s.length > 5.0 * limit || between > 0.0 && between > 5.0 * net.links[path[i + 1]].limit {
                break;
            }
            let a = (l2 * l2 - v * v) / (2.0 * f64::max(d, 0.1));
            if a <= -s.comf_dec {
                acc = f64::min(acc, f64::max(a, -2.0 * s.comf_dec));
            }
            d += len[path[j]];
            between += len[path[j]];
        }
        let w = f64::max(v + h * acc, 0.0);
        pos += 0.5 * (v + w) * h;
        v = w;
        t += h;
        if pos > len[path[i]] {
            pos -= len[path[i]];
            out.push(t);
            if i + 1 == path.len() {
                break;
            }
        }
    }
    out
}

impl Monitor for FreeFlow {
    fn start(&mut self, c: &Ctx, _s: &Snap) -> Result<(), Violation> {
        let n = &c.sc.net;
        self.plain = n.groups.is_empty() && (0..n.links.len()).all(|l| n.outs(l).len() <= 1);
        Ok(())
    }

    fn op(&mut self, _c: &Ctx, op: &Op, done: bool, a: &Snap, _b: &Snap, _p: &mut Probes) -> Result<(), Violation> {
        match op {
            Op::Spawn { v, link, dest: Some(_), .. } if done => {
                if self.plain && a.iter().count() == 0 {
                    self.began.insert(*v, (a.t, vec![*link]));
                } else {
                    self.began.clear();
                }
            }
            _ if done => self.began.clear(),
            _ => {}
        }
        Ok(())
    }

    fn step(&mut self, c: &Ctx, dt: f64, a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        for (v, x) in a.iter() {
            let Some((t0, path)) = self.began.get_mut(&v) else { continue };
            let now = b.get(v).map(|y| y.link);
            if now == Some(x.link) {
                continue;
            }
            let done = path.len() - 1;
            // how it goes on along the road
            let mut whole = path.clone();
            while let (Some(n), true) = (c.sc.net.outs(*whole.last().unwrap()).first(), whole.len() < 100) {
                whole.push(*n);
            }
            let ideal = ideal_trip(&c.sc.net, &c.w.len, &whole, &c.w.specs[v].unwrap())[done];
            let took = b.t - *t0;
            let lag = 2.0 * (path.len() as f64) * (REFRESH + dt);
            p.hit(if now.is_none() { "trip_checked" } else { "trip_part_checked" });
            p.max("trip_late_s", took - ideal - lag);
            p.max("trip_early_s", ideal - took);
            p.max("trip_over_ideal", (took - lag) / ideal);
            if took > 1.01 * ideal + lag + 0.3 || took < 0.98 * ideal - dt - 0.3 {
                return viol(
                    "trip-time",
                    format!("v{v} alone on the road took {took:.2} s for a way worth {ideal:.2} s (links {path:?})"),
                );
            }
            match now {
                Some(l) => path.push(l),
                None => {
                    self.began.remove(&v);
                }
            }
        }
        Ok(())
    }
}
