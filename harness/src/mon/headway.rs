use super::*;
use std::collections::BTreeMap;

/// The gap a standing vehicle leaves, and the least room that makes one set off (m).
const MIN_GAP: f64 = 2.0;
const ROOM: f64 = 4.0;
/// How long a pair must have driven evenly to count as settled (s).
const SETTLED: f64 = 12.0;
/// A vehicle sets off within this time (s), steps aside.
const REACTION: f64 = 0.5;

/// Vehicles that follow one another settle at the gap their headway asks for,
/// and those that stand with room ahead of them set off.
#[derive(Default)]
pub struct Headway {
    ls: Links,
    /// Lines at which somebody may have to wait.
    lines: Vec<bool>,
    /// Pairs of follower and leader: for how long both have driven evenly.
    even: BTreeMap<(usize, usize), f64>,
    /// Settled followers: speed, gap, wanted gap, since when.
    seen: Vec<(usize, f64, f64, f64, f64)>,
    /// Greatest speed each vehicle has gained since its pace was last set.
    top: BTreeMap<usize, f64>,
    standing: BTreeMap<usize, f64>,
    /// When the last vehicle was told to keep another pace.
    paced: f64,
}

impl Headway {
    /// The next vehicle ahead on the only way on, and the gap to it.
    fn leader(&self, c: &Ctx, b: &Snap, v: usize, y: &VSnap) -> Option<(usize, f64)> {
        let (mut l, mut off, mut from) = (y.link, 0.0, y.pos);
        loop {
            let next = b
                .iter()
                .filter(|(w, z)| *w != v && z.link == l && z.pos > from)
                .min_by(|a, b| a.1.pos.total_cmp(&b.1.pos));
            if let Some((w, z)) = next {
                return Some((w, z.rear + off - y.front));
            }
            off += c.w.len[l];
            if self.ls.outs[l].len() != 1 || off - y.front > 400.0 {
                return None;
            }
            l = self.ls.outs[l][0];
            from = -1.0;
        }
    }

    /// Whether the way on may be closed to the vehicle, or branches, close ahead.
    fn line_near(&self, c: &Ctx, y: &VSnap) -> bool {
        let (mut l, mut off) = (y.link, c.w.len[y.link] - y.front);
        while off < 12.0 {
            if self.ls.outs[l].len() != 1 || self.lines[self.ls.outs[l][0]] {
                return true;
            }
            l = self.ls.outs[l][0];
            off += c.w.len[l];
        }
        self.ls.ins[y.link].len() > 1
    }
}

impl Monitor for Headway {
    fn start(&mut self, c: &Ctx, _s: &Snap) -> Result<(), Violation> {
        let net = &c.sc.net;
        self.ls = Links::new(net);
        self.lines = vec![false; net.links.len()];
        for (l, _) in &net.controls {
            self.lines[*l] = true;
        }
        let late = c.sc.program.iter().filter_map(|o| match o {
            Op::AddLight { light } => Some(light),
            _ => None,
        });
        for l in net.lights.iter().chain(late).flat_map(|l| &l.movements).flat_map(|m| &m.links) {
            self.lines[*l] = true;
        }
        for op in &c.sc.program {
            if let Op::Control { link, .. } = op {
                self.lines[*link] = true;
            }
        }
        Ok(())
    }

    fn op(&mut self, _c: &Ctx, op: &Op, done: bool, a: &Snap, _b: &Snap, _p: &mut Probes) -> Result<(), Violation> {
        if let (Op::Randomise { .. }, true) = (op, done) {
            self.paced = a.t;
            self.top.clear();
            self.even.clear();
            self.seen.clear();
        }
        Ok(())
    }

    fn step(&mut self, c: &Ctx, dt: f64, a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        for (v, y) in b.iter() {
            let Some(x) = a.get(v) else { continue };
            let top = self.top.entry(v).or_insert(0.0);
            // a speed it has gained, not one it is still losing
            if y.vel > x.vel && b.t > self.paced + 0.2 + 2.0 * dt {
                *top = top.max(y.vel);
            }
            if y.frozen {
                self.standing.remove(&v);
                continue;
            }
            let lead = self.leader(c, b, v, y);
            // standing without cause
            let room = lead.map_or(true, |l| l.1 > ROOM);
            if y.vel == 0.0 && x.vel == 0.0 && room && y.dest.is_some() && !self.line_near(c, y) {
                let t = self.standing.entry(v).or_insert(0.0);
                *t += dt;
                p.hit("stood_with_room");
                if *t > REACTION + dt {
                    return viol(
                        "stands-without-cause",
                        format!("v{v} t={:.3} has stood for {t:.2} s on link {} at {:.2} with {} ahead of it", b.t, y.link, y.pos, match lead {
                            Some(l) => format!("v{} {:.2} m", l.0, l.1),
                            None => "nothing".to_string(),
                        }),
                    );
                }
            } else {
                if self.standing.remove(&v).is_some() && y.vel > 0.0 {
                    p.hit("set_off_with_room");
                }
            }
            // following
            let Some((w, gap)) = lead else { continue };
            let (Some(x2), Some(y2)) = (a.get(w), b.get(w)) else { continue };
            let calm = |x: &VSnap, y: &VSnap| (y.vel - x.vel).abs() <= 0.01 * dt;
            let key = (v, w);
            if !(calm(x, y) && calm(x2, y2) && (y.vel - y2.vel).abs() < 0.02 && y.vel > 2.0) {
                self.even.remove(&key);
                continue;
            }
            let t = self.even.entry(key).or_insert(0.0);
            *t += dt;
            if *t > SETTLED {
                let spec = c.w.specs[v].unwrap();
                let want = MIN_GAP + spec.headway * y.vel;
                p.hit("settled_following");
                p.max("settled_gap_short_by", want - gap);
                if gap < 0.97 * want - 0.2 {
                    return viol(
                        "too-close",
                        format!("v{v} t={:.3} has followed v{w} at {:.2} m/s for {t:.1} s with a gap of {gap:.2} m; its headway of {:.2} s makes {want:.2} m", b.t, y.vel, spec.headway),
                    );
                }
                self.seen.push((v, y.vel, gap, want, b.t));
                *t = 0.0;
            }
        }
        Ok(())
    }

    fn finish(&mut self, c: &Ctx, _s: &Snap, p: &mut Probes) -> Result<(), Violation> {
        // on a road with one limit
        let links = &c.sc.net.links;
        if links.iter().any(|l| l.limit != links[0].limit) || self.lines.contains(&true) {
            return Ok(());
        }
        for (v, vel, gap, want, t) in &self.seen {
            // one that showed later that it would rather go faster was held up
            if *vel < 0.95 * self.top[v] {
                p.hit("held_up");
                p.max("held_up_gap_over", gap - want);
                if *gap > 1.04 * want + 0.5 {
                    return viol(
                        "falls-back",
                        format!("v{v} t={t:.3} follows at {vel:.2} m/s with a gap of {gap:.2} m; its headway makes {want:.2} m and it can do {:.2} m/s", self.top[v]),
                    );
                }
            }
        }
        Ok(())
    }
}
