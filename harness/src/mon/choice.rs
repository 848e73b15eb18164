use super::*;
use crate::geom::dist;
use std::collections::{BTreeMap, VecDeque};

/// How long one that needs another lane may stand next to it when it is empty (s).
const PATIENCE: f64 = 3.0;

/// Vehicles change lanes by themselves only if that brings them nearer to
/// their destination, and do not let themselves be carried past it.
#[derive(Default)]
pub struct LaneChoice {
    ls: Links,
    /// Fewest lane changes from each link to each other one.
    need: Vec<Vec<Option<usize>>>,
    /// For how long each vehicle has stood in need of another lane.
    stuck: BTreeMap<usize, f64>,
}

impl LaneChoice {
    /// Fewest lane changes on the way from any link to `dest`.
    fn search(&self, dest: usize, n: usize) -> Vec<Option<usize>> {
        let mut need = vec![None; n];
        let mut todo = VecDeque::from([(dest, 0)]);
        while let Some((l, k)) = todo.pop_front() {
            if need[l].is_some() {
                continue;
            }
            need[l] = Some(k);
            for m in &self.ls.ins[l] {
                todo.push_front((*m, k));
            }
            for m in (0..n).filter(|m| self.ls.side[*m].contains(&l)) {
                todo.push_back((m, k + 1));
            }
        }
        need
    }
}

impl Monitor for LaneChoice {
    fn start(&mut self, c: &Ctx, _s: &Snap) -> Result<(), Violation> {
        self.ls = Links::new(&c.sc.net);
        let n = c.sc.net.links.len();
        self.need = (0..n).map(|d| self.search(d, n)).collect();
        Ok(())
    }

    fn step(&mut self, _c: &Ctx, dt: f64, a: &Snap, b: &Snap, p: &mut Probes) -> Result<(), Violation> {
        for (v, y) in b.iter() {
            let Some(x) = a.get(v) else { continue };
            let Some(d) = y.dest else { continue };
            if x.link == y.link {
                let need = self.need[d][y.link].unwrap_or(0);
                let better = self.ls.side[y.link].iter().any(|l| self.need[d][*l].map_or(false, |k| k < need));
                if better {
                    p.hit("needs_another_lane");
                }
                let alone = b.iter().all(|(w, z)| w == v || dist(z.xy, y.xy) > 60.0);
                if better && alone && !y.frozen && x.vel == 0.0 && y.vel == 0.0 {
                    let t = self.stuck.entry(v).or_insert(0.0);
                    *t += dt;
                    if *t > PATIENCE {
                        return viol(
                            "does-not-change-lanes",
                            format!("v{v} t={:.3} has stood for {t:.1} s on link {} at {:.2} with nobody near, and needs {need} lane changes to its destination {d}", b.t, y.link, y.pos),
                        );
                    }
                } else {
                    self.stuck.remove(&v);
                }
                continue;
            }
            let (before, after) = (self.need[d][x.link], self.need[d][y.link]);
            let changed = !self.ls.outs[x.link].contains(&y.link);
            match (before, after) {
                (Some(k), Some(m)) if changed => {
                    p.hit("own_lane_change");
                    if m >= k {
                        return viol(
                            "needless-lane-change",
                            format!("v{v} t={:.3} changed from link {} to {} although it needs {m} changes from there to its destination, and needed {k} before", b.t, x.link, y.link),
                        );
                    }
                }
                (Some(k), after) if after.map_or(true, |m| m > k) => {
                    return viol(
                        "missed-its-lane",
                        format!("v{v} t={:.3} drove from link {} on to {} on its way to {d}: {after:?} lane changes to go instead of {k}", b.t, x.link, y.link),
                    );
                }
                (Some(0), _) => p.hit("in_the_right_lane"),
                _ => {}
            }
        }
        Ok(())
    }
}
