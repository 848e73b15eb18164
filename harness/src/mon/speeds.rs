use super::*;
use std::collections::BTreeMap;

/// Time after which a vehicle on an empty road has found its speed.
const SETTLE: f64 = 40.0;
/// How far the speed may be from where it settles, relative to the limit.
const NEAR: f64 = 0.01;

/// Standard deviation of a normal variable held within a quarter of its mean.
fn clamped_sd(sd: f64) -> f64 {
    if sd <= 0.0 {
        return 0.0;
    }
    let (mut w, mut q) = (0.0, 0.0);
    for i in -4000..=4000 {
        let z = i as f64 * 0.002;
        let p = (-0.5 * z * z).exp();
        let x = (sd * z).clamp(-0.25, 0.25);
        w += p;
        q += p * x * x;
    }
    (q / w).sqrt()
}

/// Randomised speeds: each vehicle on a road of its own shows its factor.
#[derive(Default)]
pub struct RandomSpeeds {
    /// The spread last asked for, and when.
    round: Option<(f64, f64)>,
    /// When each vehicle was last disturbed.
    since: BTreeMap<usize, f64>,
    /// Vehicles that were there when speeds were last randomised.
    present: Vec<usize>,
    /// Factors of the round before.
    before: BTreeMap<usize, f64>,
    /// Sums over rounds of the same spread: deviations within rounds, their squares, degrees of freedom.
    spread: BTreeMap<u64, (f64, f64, f64)>,
    /// Products of a vehicle's standardised factors in consecutive rounds.
    products: (f64, f64),
    repeats: (u64, u64),
    /// Factors seen in this round.
    seen: BTreeMap<usize, f64>,
}

impl RandomSpeeds {
    fn judge(&mut self, c: &Ctx, s: &Snap, p: &mut Probes) -> Result<(), Violation> {
        let (sd, at) = self.round.unwrap_or((0.0, 0.0));
        if s.t - at < SETTLE {
            return Ok(());
        }
        let mut now = BTreeMap::new();
        for (v, x) in s.iter() {
            if x.frozen || s.t - self.since.get(&v).copied().unwrap_or(0.0) < SETTLE {
                continue;
            }
            // it may be slowing down for what comes
            if c.w.len[x.link] - x.pos < 250.0 {
                continue;
            }
            let f = x.vel / c.sc.net.links[x.link].limit;
            let drawn = self.round.is_some() && self.present.contains(&v);
            if !drawn || sd == 0.0 {
                p.hit(if drawn { "speed_reset_checked" } else { "speed_of_newcomer_checked" });
                if (f - 1.0).abs() > NEAR {
                    return viol(
                        "not-at-the-limit",
                        format!("v{v} t={:.1} drives at {f:.4} of the limit; its speed was {}", s.t, if drawn { "randomised with a spread of 0" } else { "never randomised" }),
                    );
                }
            } else {
                p.hit("factor_checked");
                if !(0.75 - NEAR..=1.25 + NEAR).contains(&f) {
                    return viol("factor-out-of-range", format!("v{v} t={:.1} drives at {f:.4} of the limit", s.t));
                }
                now.insert(v, f);
            }
        }
        if now.len() > 1 {
            let n = now.len() as f64;
            let mean = now.values().sum::<f64>() / n;
            let e = self.spread.entry(sd.to_bits()).or_default();
            e.0 += now.values().map(|f| f - 1.0).sum::<f64>();
            e.1 += now.values().map(|f| (f - mean).powi(2)).sum::<f64>();
            e.2 += n - 1.0;
            for (v, f) in &now {
                if let Some(g) = self.before.get(v) {
                    self.products.0 += (f - 1.0) * g;
                    self.products.1 += (f - 1.0).powi(2).max(g * g);
                    self.repeats.0 += 1;
                    self.repeats.1 += ((f - 1.0 - g).abs() < 1e-9) as u64;
                }
            }
            self.before = now.into_iter().map(|(v, f)| (v, f - 1.0)).collect();
        }
        Ok(())
    }
}

impl Monitor for RandomSpeeds {
    fn op(&mut self, c: &Ctx, op: &Op, done: bool, a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        match op {
            Op::Spawn { v, .. } | Op::Freeze { v, .. } if done => {
                self.since.insert(*v, b.t);
                self.seen.remove(v);
            }
            Op::Randomise { stddev } => {
                self.judge(c, a, p)?;
                self.round = Some((*stddev, b.t));
                self.seen.clear();
                self.present = b.iter().map(|x| x.0).collect();
            }
            _ => {}
        }
        Ok(())
    }

    fn step(&mut self, c: &Ctx, _dt: f64, a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        let at = self.round.map_or(0.0, |x| x.1);
        for (v, y) in b.iter() {
            let Some(x) = a.get(v) else { continue };
            let limit = |l: usize| c.sc.net.links[l].limit;
            if x.link == y.link {
                let since = at.max(self.since.get(&v).copied().unwrap_or(0.0));
                let far = c.w.len[y.link] - y.pos > 250.0;
                if far && !y.frozen && b.t - since > SETTLE {
                    self.seen.insert(v, y.vel / limit(y.link));
                }
                continue;
            }
            self.since.insert(v, b.t);
            let (Some(f), false) = (self.seen.get(&v), y.frozen) else { continue };
            if b.t - at < SETTLE || limit(y.link) > limit(x.link) {
                continue;
            }
            // slowed down in time, and no more than needed
            let to = f * limit(y.link);
            let dec = c.w.specs[v].unwrap().comf_dec;
            let late = 2.0 * dec * y.vel * 0.6;
            p.hit("factor_kept_on_next_link");
            if y.vel > f64::max(1.06 * to + 0.3, (to * to + late).sqrt() + 0.2) || y.vel < 0.9 * to - 0.3 - 0.6 * dec {
                return viol(
                    "factor-not-kept",
                    format!("v{v} t={:.3} drove at {f:.3} of the limit, and enters link {} (limit {}) at {:.3} m/s", b.t, y.link, limit(y.link), y.vel),
                );
            }
        }
        Ok(())
    }

    fn finish(&mut self, c: &Ctx, s: &Snap, p: &mut Probes) -> Result<(), Violation> {
        self.judge(c, s, p)?;
        for (sd, (sum, squares, dof)) in &self.spread {
            let sd = f64::from_bits(*sd);
            if *dof < 60.0 {
                continue;
            }
            let want = clamped_sd(sd);
            let got = (squares / dof).sqrt();
            let mean = sum / dof;
            p.hit("spread_checked");
            p.max("spread_ratio", got / want);
            // six standard errors
            let e = 6.0 / (2.0 * dof).sqrt();
            if got < want * (1.0 - e).max(0.2) - 0.3 * NEAR || got > want * (1.0 + e) + 0.3 * NEAR {
                return viol("wrong-spread", format!("speeds randomised with {sd} are spread by {got:.4}, not {want:.4} ({dof} samples)"));
            }
            if mean.abs() > 6.0 * want / dof.sqrt() + 0.3 * NEAR {
                return viol("wrong-mean", format!("speeds randomised with {sd} have a mean {mean:+.4} from the limit ({dof} samples)"));
            }
        }
        let (n, same) = self.repeats;
        if n > 60 {
            p.hit("replacement_checked");
            let r = self.products.0 / self.products.1;
            p.max("correlation_of_rounds", r.abs());
            if r.abs() > 6.0 / (n as f64).sqrt() || same * 2 > n {
                return viol("factors-not-replaced", format!("factors of one round and the next are correlated by {r:.3} ({n} samples)"));
            }
        }
        Ok(())
    }
}
