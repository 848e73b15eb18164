//! The scenario language: a road network and a program of operations.
//! A scenario is a complete, self-contained description of one simulated
//! execution; it is what replay files contain.

use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub family: String,
    pub seed: u64,
    /// Seed of the operating-system entropy served during the run.
    pub entropy: u64,
    pub net: Net,
    pub program: Vec<Op>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Net {
    pub links: Vec<LinkSpec>,
    pub conns: Vec<(usize, usize)>,
    pub groups: Vec<(Vec<usize>, u32)>,
    pub conv: Vec<(usize, usize)>,
    pub lights: Vec<LightSpec>,
    pub controls: Vec<(usize, Control)>,
    /// Chains of parallel lanes, stop lines and the like that generators want
    /// to hand to monitors.
    #[serde(default)]
    pub tags: Vec<(String, usize)>,
    /// Links from this one on, and all that refers to them, come with `Op::Grow`.
    #[serde(default)]
    pub late: Option<usize>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LinkSpec {
    pub curve: Curve,
    pub limit: f64,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Curve {
    Line([[f64; 2]; 2]),
    Quad([[f64; 2]; 3]),
    Cubic([[f64; 2]; 4]),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Control {
    Open,
    Closed,
    Yield {
        distance: f64,
        must_stop: bool,
        priority: i8,
    },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LightSpec {
    pub movements: Vec<MovementSpec>,
    /// (mask, duration)
    pub phases: Vec<(u64, f64)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MovementSpec {
    pub conflict: u64,
    pub amber: f64,
    pub red: f64,
    pub links: Vec<usize>,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct VehSpec {
    pub width: f64,
    pub length: f64,
    pub wheel_base: f64,
    pub headway: f64,
    pub max_acc: f64,
    pub comf_dec: f64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// Advance the clock `n` times by `dt` seconds.
    Step { dt: f64, n: usize },
    /// Add a vehicle if its place at the start of `link` is clear.
    /// Vehicles are named by the ordinal `v`, fixed by the generator, so that
    /// removing an operation does not rename the others.
    Spawn {
        v: usize,
        veh: VehSpec,
        link: usize,
        dest: Option<usize>,
    },
    Remove { v: usize },
    Freeze { v: usize, on: bool },
    Dest { v: usize, link: usize },
    LaneChange { v: usize, link: usize, dist: f64 },
    Control { link: usize, control: Control },
    Randomise { stddev: f64 },
    /// Adds another traffic light while the simulation is running.
    AddLight { light: LightSpec },
    /// Builds the rest of the network while the simulation is running.
    Grow,
    /// The operation without the care a sensible user would take.
    Wild { op: Box<Op> },
    /// A note for the monitors: the generator injects no further faults.
    Quiesce,
}

impl Scenario {
    pub fn steps(&self) -> usize {
        self.program
            .iter()
            .map(|op| match op {
                Op::Step { n, .. } => *n,
                _ => 0,
            })
            .sum()
    }
}
