use super::*;

/// Exact times compare with this much room for rounding.
const EPS: f64 = 1e-6;

/// All lights of a run: those of the network and those added on the way.
#[derive(Default)]
struct Lights {
    specs: Vec<LightSpec>,
}

impl Lights {
    fn start(&mut self, c: &Ctx) {
        self.specs = c.sc.net.lights.clone();
    }
    fn op(&mut self, op: &Op) -> bool {
        if let Op::AddLight { light } = op {
            self.specs.push(light.clone());
            return true;
        }
        false
    }
}

/// What a set of lights must never do, whatever its programme.
#[derive(Default)]
pub struct LightSafety {
    lights: Lights,
    /// For each movement, since when it has shown its state; `None` if ever since it was added.
    since: Vec<Vec<Option<f64>>>,
}

impl LightSafety {
    fn pairs(&self, s: &Snap, p: &mut Probes) -> Result<(), Violation> {
        for (i, l) in self.lights.specs.iter().enumerate() {
            let st = &s.lights[i];
            if st.len() != l.movements.len() {
                return viol("movement-missing", format!("light {i} shows {} of {} movements", st.len(), l.movements.len()));
            }
            for m in 0..st.len() {
                for o in 0..m {
                    if (l.movements[o].conflict >> m) & 1 == 1 {
                        p.hit("conflict_pair_checked");
                        if st[m] != Sig::Red && st[o] != Sig::Red {
                            return viol(
                                "conflicting-lights",
                                format!("t={:.3} light {i}: movement {o} is {:?} while {m} is {:?}", s.t, st[o], st[m]),
                            );
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

impl Monitor for LightSafety {
    fn start(&mut self, c: &Ctx, s: &Snap) -> Result<(), Violation> {
        self.lights.start(c);
        self.since = self.lights.specs.iter().map(|l| vec![None; l.movements.len()]).collect();
        self.pairs(s, &mut Probes::default())
    }

    fn op(&mut self, _c: &Ctx, op: &Op, _done: bool, a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        if self.lights.op(op) {
            self.since.push(vec![None; self.lights.specs.last().unwrap().movements.len()]);
        }
        for (x, y) in a.lights.iter().zip(&b.lights) {
            if x != y {
                return viol("light-without-time", format!("t={:.3} {x:?} -> {y:?} by {op:?}", b.t));
            }
        }
        self.pairs(b, p)
    }

    fn step(&mut self, _c: &Ctx, _dt: f64, a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        self.pairs(b, p)?;
        // what is shown after a step has been so from the beginning of that step
        let now = a.t;
        for (i, l) in self.lights.specs.iter().enumerate() {
            for m in 0..l.movements.len() {
                let (x, y) = (a.lights[i][m], b.lights[i][m]);
                if x == y {
                    continue;
                }
                let held = self.since[i][m].map(|s| now - s);
                match (x, y) {
                    (Sig::Green, Sig::Red) => {
                        return viol("no-amber", format!("t={:.3} light {i} movement {m} went from green to red", b.t))
                    }
                    (Sig::Red, Sig::Amber) => {
                        return viol("amber-after-red", format!("t={:.3} light {i} movement {m} went from red to amber", b.t))
                    }
                    (Sig::Amber, Sig::Red) => {
                        p.hit("amber_checked");
                        if held.unwrap_or(0.0) < l.movements[m].amber - EPS {
                            return viol(
                                "short-amber",
                                format!("t={:.3} light {i} movement {m} was amber for {held:?} of {} s", b.t, l.movements[m].amber),
                            );
                        }
                    }
                    (Sig::Red, Sig::Green) => {
                        for (o, other) in l.movements.iter().enumerate() {
                            if (other.conflict >> m) & 1 == 0 || o == m {
                                continue;
                            }
                            if let Some(since) = self.since[i][o] {
                                p.hit("clearance_checked");
                                if now - since < other.red - EPS {
                                    return viol(
                                        "short-clearance",
                                        format!(
                                            "t={:.3} light {i}: movement {m} turns green {:.4} s after movement {o} turned red, clearance is {}",
                                            b.t, now - since, other.red
                                        ),
                                    );
                                }
                            }
                        }
                        p.hit("light_green");
                    }
                    _ => p.hit("light_changed"),
                }
                self.since[i][m] = Some(now);
            }
        }
        Ok(())
    }
}

/// The lights as their documentation describes them, in absolute time.
struct Model {
    spec: LightSpec,
    phase: usize,
    state: Vec<Sig>,
    since: Vec<f64>,
}

impl Model {
    fn new(spec: &LightSpec, now: f64) -> Model {
        let n = spec.movements.len();
        Model {
            spec: spec.clone(),
            phase: 0,
            state: vec![Sig::Red; n],
            since: vec![now; n],
        }
    }

    fn tick(&mut self, now: f64) {
        let n = self.state.len();
        let held = |m: usize, s: &[f64]| now - s[m];
        let (mask, duration) = self.spec.phases[self.phase];
        let served = (0..n)
            .filter(|m| (mask >> m) & 1 == 1)
            .all(|m| self.state[m] == Sig::Green && held(m, &self.since) >= duration);
        if served {
            self.phase = (self.phase + 1) % self.spec.phases.len();
        }
        let mask = self.spec.phases[self.phase].0;
        let mut next = self.state.clone();
        for m in 0..n {
            let wanted = (mask >> m) & 1 == 1;
            next[m] = match (wanted, self.state[m]) {
                (true, Sig::Red) => {
                    let clear = (0..n).filter(|o| (self.spec.movements[*o].conflict >> m) & 1 == 1).all(|o| {
                        self.state[o] == Sig::Red && held(o, &self.since) > self.spec.movements[o].red
                    });
                    if clear {
                        Sig::Green
                    } else {
                        Sig::Red
                    }
                }
                (true, _) => Sig::Green,
                (false, Sig::Green) => Sig::Amber,
                (false, Sig::Amber) if held(m, &self.since) >= self.spec.movements[m].amber => Sig::Red,
                (false, s) => s,
            };
        }
        for m in 0..n {
            if next[m] != self.state[m] {
                self.since[m] = now;
            }
        }
        self.state = next;
    }
}

/// The programme of phases is served in order, promptly and in full.
#[derive(Default)]
pub struct LightProgramme {
    models: Vec<Model>,
}

impl Monitor for LightProgramme {
    fn start(&mut self, c: &Ctx, s: &Snap) -> Result<(), Violation> {
        self.models = c.sc.net.lights.iter().map(|l| Model::new(l, s.t)).collect();
        Ok(())
    }

    fn op(&mut self, _c: &Ctx, op: &Op, _done: bool, _a: &Snap, b: &Snap, _p: &mut Probes) -> Result<(), Violation> {
        if let Op::AddLight { light } = op {
            self.models.push(Model::new(light, b.t));
        }
        Ok(())
    }

    fn step(&mut self, _c: &Ctx, _dt: f64, a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        for (i, m) in self.models.iter_mut().enumerate() {
            let was = m.phase;
            m.tick(a.t);
            if m.phase != was {
                p.hit("phase_changed");
                if m.phase == 0 {
                    p.hit("programme_cycled");
                }
            }
            p.hit("programme_checked");
            if m.state != b.lights[i] {
                return viol(
                    "off-programme",
                    format!(
                        "t={:.3} light {i} shows {:?}, its programme (phase {} of {}) calls for {:?}",
                        b.t, b.lights[i], m.phase, m.spec.phases.len(), m.state
                    ),
                );
            }
        }
        Ok(())
    }
}
