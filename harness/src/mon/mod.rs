//! Monitors: the properties, checked while a run proceeds.

mod beside;
mod choice;
mod conserve;
mod headway;
mod junction;
mod lanes;
mod lights;
mod motion;
mod observe;
mod route;
mod sane;
mod speeds;

pub use beside::*;
pub use choice::*;
pub use conserve::*;
pub use headway::*;
pub use junction::*;
pub use lanes::*;
pub use lights::*;
pub use motion::*;
pub use observe::*;
pub use route::*;
pub use sane::*;
pub use speeds::*;

use crate::fam::lane_neighbours;
use crate::spec::*;
use crate::world::*;

/// Hardest braking of any vehicle (m/s^2).
pub const MAX_DECEL: f64 = 6.0;
/// Accelerations are refreshed once at least this much time has passed.
pub const REFRESH: f64 = 0.1;

/// Adjacency of the network as the scenario declares it.
#[derive(Default)]
pub struct Links {
    pub outs: Vec<Vec<usize>>,
    pub ins: Vec<Vec<usize>>,
    pub side: Vec<Vec<usize>>,
}

impl Links {
    pub fn new(net: &Net) -> Links {
        let n = net.links.len();
        Links {
            outs: (0..n).map(|l| net.outs(l)).collect(),
            ins: (0..n).map(|l| net.ins(l)).collect(),
            side: (0..n).map(|l| lane_neighbours(net, l)).collect(),
        }
    }
}

/// The distance a vehicle drove between two observations if it kept to its
/// lane, or `None` if it changed lanes.
pub fn driven(w: &World, ls: &Links, a: &VSnap, b: &VSnap) -> Option<f64> {
    if a.link == b.link && !(b.pos < a.pos && ls.outs[a.link].contains(&b.link)) {
        return Some(b.pos - a.pos);
    }
    if ls.outs[a.link].contains(&b.link) {
        return Some(b.pos + w.len[a.link] - a.pos);
    }
    None
}
