//! The properties: which scenarios, which monitors, what counts.

use crate::cmp;
use crate::mon::*;
use crate::run::*;
use crate::scen;
use crate::spec::*;
use crate::world::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(&self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

pub enum How {
    /// One run, watched.
    Watch(fn(&Scenario) -> Vec<Box<dyn Monitor>>),
    /// Several runs, compared.
    Compare(fn(&Scenario) -> RunResult),
}

pub struct Prop {
    pub id: &'static str,
    pub families: &'static [(u32, fn(u64) -> Scenario)],
    pub how: How,
    pub nontrivial: fn(&Probes) -> bool,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
}

impl Prop {
    pub fn runs(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        }
    }

    pub fn scenario(&self, seed: u64) -> Scenario {
        let total: u32 = self.families.iter().map(|f| f.0).sum();
        let mut k = (crate::prng::mix(seed ^ 0xFA31) % total as u64) as u32;
        for (w, f) in self.families {
            if k < *w {
                return f(seed);
            }
            k -= w;
        }
        unreachable!()
    }

    pub fn run(&self, sc: &Scenario) -> RunResult {
        match self.how {
            How::Watch(m) => monitored(sc, m),
            How::Compare(f) => f(sc),
        }
    }
}

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}

macro_rules! watch {
    ($($m:expr),*) => {
        How::Watch(|_| vec![$(Box::new($m)),*])
    };
}

const CLOCK: &str = "steps of at most 0.2 s, as the documentation asks for";
const CLEAR: &str = "vehicles are added only where the start of a link is clear";

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        families: &[(1, scen::coarse), (2, scen::road), (2, |s| scen::tree_with(s, 10.0, 0.1)), (2, |s| scen::grid_run(s, 6.0)), (3, |s| scen::multi(s, 4.0)), (2, scen::signal), (2, scen::give_way), (1, |s| scen::all_way(s, false)), (2, scen::roundabout)],
        how: watch![Conservation::default()],
        nontrivial: |p| p.get("link_changed") > 0 && p.get("arrived") + p.get("removed") > 0,
        rule: "a vehicle moved between links and one arrived or was removed",
        assumptions: &[CLOCK, CLEAR],
        quick: 9000,
        thorough: 60000,
    },
    Prop {
        id: "C02",
        families: &[(1, scen::coarse), (2, scen::road), (2, scen::tree), (1, |s| scen::grid_run(s, 6.0)), (3, |s| scen::multi(s, 4.0)), (2, scen::signal), (2, scen::give_way), (1, |s| scen::all_way(s, false)), (2, scen::roundabout)],
        how: watch![Kinematics::default()],
        nontrivial: |p| p.get("kin_link_crossed") > 0 && p.get("kin_checked") > 100,
        rule: "more than 100 vehicle steps were checked and one crossed between links",
        assumptions: &[CLOCK, CLEAR],
        quick: 9000,
        thorough: 60000,
    },
    Prop {
        id: "C03",
        families: &[(1, scen::coarse), (3, scen::road), (3, scen::tree), (2, |s| scen::multi(s, 4.0)), (2, scen::signal), (2, scen::roundabout)],
        how: watch![Pose::default()],
        nontrivial: |p| p.get("pose_checked") > 100,
        rule: "more than 100 poses were checked against the road",
        assumptions: &[CLOCK, CLEAR],
        quick: 9000,
        thorough: 60000,
    },
    Prop {
        id: "C04",
        families: &[(4, scen::road), (2, scen::corridor), (1, scen::stops), (1, scen::tree)],
        how: watch![Following::default()],
        nontrivial: |p| p.get("close_following") > 0,
        rule: "two vehicles came within 5 m of one another in their lane",
        assumptions: &[CLOCK, CLEAR],
        quick: 12000,
        thorough: 60000,
    },
    Prop {
        id: "C05",
        families: &[(2, scen::lone), (1, |s| cmp::no_randomise(scen::multi(s, 3.0))), (1, |s| cmp::no_randomise(scen::tree(s))), (1, |s| cmp::no_randomise(scen::grid_run(s, 0.0))), (2, |s| scen::road_with(s, &crate::gen::Faults { freeze: 8.0, remove: 4.0, redest: 0.0, lane_change: 0.0, control: 0.0, randomise: 0.0 }, 150.0))],
        how: watch![SpeedLimit::default(), FreeFlow::default()],
        nontrivial: |p| p.get("limit_checked") > 0 && p.get("slowed_for_link") + p.get("trip_checked") > 0,
        rule: "a vehicle slowed down for a slower link or completed a trip on an empty road",
        assumptions: &[CLOCK, CLEAR],
        quick: 15000,
        thorough: 60000,
    },
    Prop {
        id: "C06",
        families: &[(4, scen::road), (1, scen::tree), (2, |s| scen::tree_with(s, 10.0, 0.0)), (1, scen::signal), (1, |s| scen::multi(s, 0.0))],
        how: watch![Freezing::default(), Release::default()],
        nontrivial: |p| p.get("frozen_braking") > 0 && p.get("frozen_at_rest") > 0,
        rule: "a vehicle was frozen while moving and came to rest",
        assumptions: &[CLOCK, CLEAR],
        quick: 12000,
        thorough: 60000,
    },
    Prop {
        id: "C07",
        families: &[(6, scen::lights), (1, scen::signal)],
        how: watch![LightSafety::default()],
        nontrivial: |p| p.get("clearance_checked") > 0 && p.get("amber_checked") > 0,
        rule: "a movement turned green after a conflicting one had turned red",
        assumptions: &["conflicts are declared on both sides and no phase holds two movements in conflict"],
        quick: 18000,
        thorough: 100000,
    },
    Prop {
        id: "C08",
        families: &[(6, scen::lights), (1, scen::signal)],
        how: watch![LightProgramme::default()],
        nontrivial: |p| p.get("phase_changed") > 1,
        rule: "the programme moved on at least twice",
        assumptions: &["conflicts are declared on both sides and no phase holds two movements in conflict"],
        quick: 18000,
        thorough: 100000,
    },
    Prop {
        id: "C09",
        families: &[(3, scen::corridor), (2, scen::signal), (2, scen::gated), (2, scen::gated_grid)],
        how: watch![StopLines::default(), Arrival::default()],
        nontrivial: |p| p.get("waiting_at_line") > 0,
        rule: "a vehicle waited at the line of a closed link",
        assumptions: &[CLOCK, CLEAR],
        quick: 9000,
        thorough: 60000,
    },
    Prop {
        id: "C10",
        families: &[(3, scen::stops), (1, |s| scen::all_way(s, false)), (1, scen::give_way), (1, scen::roundabout)],
        how: watch![StopLines::default(), Arrival::default()],
        nontrivial: |p| p.get("entered_stop_sign") > 0,
        rule: "a vehicle passed a stop sign",
        assumptions: &[CLOCK, CLEAR],
        quick: 9000,
        thorough: 60000,
    },
    Prop {
        id: "C11",
        families: &[(3, scen::give_way), (1, |s| scen::signal_with(s, true)), (2, scen::roundabout)],
        how: watch![Crossing::default()],
        nontrivial: |p| p.get("near_encounter") > 0,
        rule: "vehicles from different arms came within reach of one another",
        assumptions: &[CLOCK, CLEAR],
        quick: 12000,
        thorough: 60000,
    },
    Prop {
        id: "C12",
        families: &[(1, |s| scen::all_way(s, true))],
        how: watch![Fifo::default(), Crossing::default()],
        nontrivial: |p| p.get("fifo_others_waiting") > 0,
        rule: "a vehicle entered while one in conflict with it was waiting",
        assumptions: &[CLOCK, CLEAR],
        quick: 9000,
        thorough: 60000,
    },
    Prop {
        id: "C13",
        families: &[(1, |s| scen::grid_run(s, 8.0))],
        how: watch![Routes::default()],
        nontrivial: |p| p.get("route_with_alternatives") > 0,
        rule: "a vehicle completed a trip in a network with more links than it used",
        assumptions: &[CLOCK, CLEAR],
        quick: 12000,
        thorough: 60000,
    },
    Prop {
        id: "C14",
        families: &[(2, scen::road), (2, |s| scen::tree_with(s, 15.0, 0.0)), (2, |s| scen::grid_run(s, 10.0)), (2, |s| scen::multi(s, 0.0)), (2, scen::signal), (1, scen::give_way), (1, |s| scen::all_way(s, false)), (1, scen::roundabout)],
        how: watch![Arrival::default()],
        nontrivial: |p| p.get("arrival_due") > 0,
        rule: "a vehicle was due to arrive",
        assumptions: &[CLOCK, CLEAR],
        quick: 9000,
        thorough: 60000,
    },
    Prop {
        id: "C15",
        families: &[(1, |s| scen::multi(s, 6.0))],
        how: watch![LaneChanges::default()],
        nontrivial: |p| p.get("lane_change_completed") > 0,
        rule: "a lane change was completed",
        assumptions: &[CLOCK, CLEAR],
        quick: 12000,
        thorough: 60000,
    },
    Prop {
        id: "C16",
        families: &[(1, cmp::any_network)],
        how: How::Compare(cmp::determinism),
        nontrivial: |p| p.get("op_spawn") > 0 && p.get("repeated") > 0,
        rule: "vehicles were added and the run was repeated",
        assumptions: &[CLOCK, CLEAR],
        quick: 6000,
        thorough: 40000,
    },
    Prop {
        id: "C17",
        families: &[(1, cmp::side_by_side)],
        how: How::Compare(cmp::independence),
        nontrivial: |p| p.get("compared_alone") > 0 && p.get("observations_compared") > 0,
        rule: "a network was run beside another and alone",
        assumptions: &[CLOCK, CLEAR],
        quick: 6000,
        thorough: 40000,
    },
    Prop {
        id: "C18",
        families: &[(1, cmp::idle)],
        how: How::Compare(cmp::idle_steps),
        nontrivial: |p| p.get("idle_steps_inserted") > 0 && p.get("observations_compared") > 0,
        rule: "zero-length steps were inserted while vehicles were on the road",
        assumptions: &[CLOCK, CLEAR],
        quick: 6000,
        thorough: 40000,
    },
    Prop {
        id: "C19",
        families: &[(1, scen::cruise)],
        how: watch![RandomSpeeds::default()],
        nontrivial: |p| p.get("factor_checked") > 10,
        rule: "more than ten factors were read off vehicles that had found their speed",
        assumptions: &[CLOCK, "one vehicle to a road"],
        quick: 6000,
        thorough: 60000,
    },
    Prop {
        id: "C20",
        families: &[(1, cmp::any_network)],
        how: How::Compare(cmp::turned),
        nontrivial: |p| p.get("networks_turned") + p.get("networks_mirrored") + p.get("networks_shifted") > 0 && p.get("observations_compared") > 0,
        rule: "the network was turned, mirrored or shifted and vehicles were on it",
        assumptions: &[CLOCK, CLEAR],
        quick: 6000,
        thorough: 40000,
    },
    Prop {
        id: "C21",
        families: &[(1, cmp::lanes_apart)],
        how: How::Compare(cmp::neighbours),
        nontrivial: |p| p.get("side_by_side") > 0,
        rule: "vehicles on different lanes were beside one another",
        assumptions: &[CLOCK, CLEAR],
        quick: 6000,
        thorough: 40000,
    },
    Prop {
        id: "C22",
        families: &[(1, cmp::one_file)],
        how: How::Compare(cmp::only_ahead),
        nontrivial: |p| p.get("close_pairs") > 0 && p.get("compared_without_those_behind") > 0,
        rule: "vehicles were left out of a run in which some came close",
        assumptions: &[CLOCK, CLEAR],
        quick: 6000,
        thorough: 40000,
    },
    Prop {
        id: "C23",
        families: &[(1, cmp::routes)],
        how: How::Compare(cmp::offered),
        nontrivial: |p| p.get("offered_driven") > 0 && p.get("not_offered_tried") > 0,
        rule: "a route on offer was driven and one not on offer was tried",
        assumptions: &[CLOCK, "one vehicle at a time"],
        quick: 6000,
        thorough: 40000,
    },
    Prop {
        id: "C24",
        families: &[(1, scen::chaos)],
        how: watch![Sane::default()],
        nontrivial: |p| p.get("sanity_checked") > 100,
        rule: "more than 100 observations of a vehicle were checked",
        assumptions: &["lane changes are asked for only between lanes of one group, before the end of the lane"],
        quick: 12000,
        thorough: 80000,
    },
    Prop {
        id: "C25",
        families: &[(1, cmp::crossroads)],
        how: How::Compare(cmp::right_of_way),
        nontrivial: |p| p.get("pulled_out_before_somebody") + p.get("main_road_with_side_waiting") > 0,
        rule: "somebody pulled out while there was traffic on the main road, or waited beside it",
        assumptions: &[CLOCK, CLEAR],
        quick: 6000,
        thorough: 40000,
    },
    Prop {
        id: "C26",
        families: &[(4, scen::platoon), (1, scen::road), (1, scen::corridor), (1, scen::stops)],
        how: watch![Headway::default()],
        nontrivial: |p| p.get("settled_following") + p.get("set_off_with_room") > 0,
        rule: "a vehicle settled behind another, or set off from standing",
        assumptions: &[CLOCK, CLEAR],
        quick: 12000,
        thorough: 60000,
    },
    Prop {
        id: "C27",
        families: &[(1, |s| scen::multi(s, 0.0)), (1, |s| scen::multi(s, 4.0))],
        how: watch![LaneChoice::default()],
        nontrivial: |p| p.get("needs_another_lane") > 0,
        rule: "a vehicle had to change lanes to get to its destination",
        assumptions: &[CLOCK, CLEAR],
        quick: 12000,
        thorough: 60000,
    },
    Prop {
        id: "C29",
        families: &[(3, scen::swerve), (1, |s| scen::multi(s, 6.0))],
        how: watch![Beside::default()],
        nontrivial: |p| p.get("lane_change_with_room") > 0 && p.get("beside_one_changing") > 0,
        rule: "lanes were changed with room to do so, and somebody was near",
        assumptions: &[CLOCK, CLEAR],
        quick: 24000,
        thorough: 60000,
    },
    Prop {
        id: "C28",
        families: &[(1, scen::coarse), (1, scen::road), (1, |s| scen::tree_with(s, 10.0, 0.1)), (1, |s| scen::grid_run(s, 6.0)), (2, |s| scen::multi(s, 4.0)), (1, scen::signal), (1, scen::corridor), (1, scen::roundabout)],
        how: watch![Consistent::default()],
        nontrivial: |p| p.get("observed_consistent") > 0,
        rule: "a vehicle was observed",
        assumptions: &[CLOCK, CLEAR],
        quick: 6000,
        thorough: 40000,
    },
    Prop {
        id: "C31",
        families: &[(1, cmp::any_network)],
        how: How::Compare(cmp::undone),
        nontrivial: |p| p.get("undone_vehicle") + p.get("undone_freeze") + p.get("undone_control") > 0 && p.get("observations_compared") > 0,
        rule: "operations were carried out and undone at once while vehicles were on the road",
        assumptions: &[CLOCK, CLEAR],
        quick: 6000,
        thorough: 40000,
    },
];
