"""Writes properties.jsonl and MANIFEST.json: python3 tools/properties.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), note="", technique=None):
    P.append(dict(
        id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
        mech=mech, state=state, observe=observe, note=note, technique=technique))


ALL = ["schedules", "configurations", "fault_sequences", "histories"]
VEH = "public vehicle iterator and getters after every step and every operation"
LIGHT = "public traffic light state after every step"

prop("C01", "No vehicle is lost, duplicated, moved about or conjured up",
     "Every vehicle that was added is present exactly once, on one link, at a position within that link, with the size it was given, until it is removed by the user or drives off the end of its destination link (one redirected less than 0.3 s before may still leave at the former one). "
     "Between two steps it can only go to a link connected to or beside the one it was on; nothing else makes a vehicle appear, vanish or leave anywhere but at its destination, and removing or adding one does not affect the presence of others. "
     "The frame counter advances by one per step.",
     ALL, "every network, short and long links, few vehicles and many, every sequence of additions, removals, freezes, redirections and lane changes, every step schedule, up to steps of 1 s where the links are long enough",
     "the tests add a handful of vehicles to three fixed networks and look at none of the bookkeeping after removals, forced lane changes or redirections in mid-course",
     ["src/simulation.rs", "src/link.rs", "src/vehicle.rs"],
     [("link vehicle lists are kept in step with the vehicle's own location", "src/simulation.rs: advance_vehicles, remove_vehicle, do_lane_change; src/link.rs: insert_vehicle, remove_vehicle"),
      ("vehicles leave only at the end of a path whose end is the destination", "src/vehicle.rs: advance, can_exit")],
     [("vehicles of a link", "ordered list of the vehicles on a link", "src/link.rs: Link::vehicles"), ("route", "the links a vehicle is going to take", "src/vehicle.rs: Vehicle::route")],
     [VEH])

prop("C02", "Vehicles move according to their speed and their limits",
     "In a step of dt seconds a vehicle's speed rises by at most its maximum acceleration times dt and falls by at most 6 m/s2 times dt, never below zero, and the distance it covers along its links is the mean of the speeds before and after times dt, also across the boundary between links. "
     "No operation other than a step changes any vehicle's speed or place, except that an explicit lane change relocates its own vehicle sideways.",
     ALL, "every network, vehicle, step length schedule (up to 1 s), and sequence of interventions",
     "no test checks the motion law; the tests use one fixed step and one vehicle model",
     ["src/vehicle.rs", "src/vehicle/acceleration.rs", "src/simulation.rs"],
     [("integration of speed and position", "src/vehicle.rs: integrate"), ("acceleration limits", "src/vehicle/acceleration.rs"), ("carrying the remainder over to the next link", "src/vehicle.rs: advance")],
     [("position and speed", "longitudinal state", "src/vehicle.rs: Vehicle::pos, vel")], [VEH])

prop("C03", "The reported pose is on the road where the position says it is",
     "Away from lane changes, a vehicle's world coordinates lie on the centre line of its link at its reported position, its heading is a unit vector along the road, and its rear edge is half a length behind. "
     "Coordinates and heading change continuously from step to step, also across link boundaries and during lane changes. A newly added vehicle stands at the start of its link, aligned with it.",
     ["configurations", "schedules", "fault_sequences"], "every link shape (lines, quadratic and cubic curves) and length from a few metres to about a kilometre, position, vehicle size and step schedule",
     "the curve tests check a few points of single curves; none looks at a vehicle that drives along them",
     ["src/link/curve.rs", "src/math/lut.rs", "src/vehicle.rs"],
     [("equidistant sampling of the curve", "src/link/curve.rs: LinkCurve"), ("tracking of the rear axle", "src/vehicle.rs: update_coords")],
     [("curve samples", "precomputed points along the link", "src/link/curve.rs")], [VEH + " (coordinates, heading, rear edge)"])

prop("C04", "Vehicles in one lane never overlap nor overtake one another",
     "On a road where lanes do not merge, the front of a vehicle never passes the rear of the vehicle ahead of it in its lane, whether on the same link or on a following one. "
     "This holds however abruptly the one ahead brakes or is frozen, for any mix of vehicle sizes, accelerations, speed factors and headways of 0.8 s or more, and with any steps of up to 0.2 s.",
     ALL, "every chain of links, vehicle mix, fault sequence (emergency stops, removals, speed factors, signals) and step schedule",
     "the tests drive a few identical cars in undisturbed flow and do not measure gaps",
     ["src/vehicle/acceleration.rs", "src/link.rs", "src/vehicle.rs"],
     [("car following law", "src/vehicle/acceleration.rs: follow_vehicle"), ("looking ahead across links", "src/link.rs: apply_accelerations, process_vehicles")],
     [("vehicle order", "vehicles of a link from back to front", "src/link.rs: Link::vehicles")], [VEH + " (front and rear positions)"])

prop("C05", "Speed limits are kept, and an empty road is driven at its limits",
     "A vehicle never accelerates beyond the speed limit of the link it is on, and it slows down in time for a slower link ahead. "
     "A lone vehicle drives away from rest at once and completes its trip in the time its acceleration, its comfortable braking and the limits on its way allow, neither dawdling nor racing.",
     ["configurations", "schedules"], "every sequence of limits and link lengths on roads, trees, grids and parallel lanes, vehicle and step schedule",
     "no test has more than one limit on a route or measures a travel time",
     ["src/vehicle/acceleration.rs", "src/link.rs"],
     [("free-road acceleration", "src/vehicle/acceleration.rs: apply_current_speed_limit"), ("slowing for a limit ahead", "src/vehicle/acceleration.rs: apply_speed_limit; src/link.rs: apply_accelerations")],
     [], [VEH + " (speed, time of arrival)"])

prop("C06", "Frozen vehicles brake to a halt and stay; released ones drive on",
     "A vehicle that is frozen brakes at 6 m/s2 from the next update of accelerations (at most 0.1 s and one step later) until it stands, and then stays exactly where it is until it is released; no other vehicle is frozen with it, and the reported flag is what was last set. "
     "Once released, with a clear road ahead, it accelerates away within 0.7 s.",
     ALL, "every moment of freezing and releasing, also of vehicles that are redirected while they are frozen, in any traffic, on any network, under any step schedule",
     "the tests never freeze a vehicle",
     ["src/vehicle.rs", "src/vehicle/acceleration.rs", "src/simulation.rs"],
     [("emergency stop", "src/vehicle/acceleration.rs: emergency_stop"), ("flag on the vehicle", "src/simulation.rs: set_vehicle_frozen, get_vehicle_frozen")],
     [("frozen flag", "set by the user", "src/vehicle.rs: Vehicle::frozen")], [VEH + ", frozen flag"])

prop("C07", "Conflicting signals are never open together; amber and clearance are kept",
     "Two movements of a traffic light that are declared to conflict never show green or amber at the same time. "
     "A movement goes from green to red only through amber, which lasts at least its amber time, and no movement turns green until every conflicting one has been red for at least that one's red time. "
     "Movements start red.",
     ["configurations", "schedules", "histories"], "every set of movements (up to 30 and more), conflicts, times and phases without contradictory phases; every step schedule",
     "there is no test of the traffic light at all",
     ["src/light.rs"],
     [("state machine of each movement", "src/light.rs: TrafficLight::step"), ("conflict masks and clearance", "src/light.rs: can_turn_green")],
     [("movement state and time in it", "red, amber or green, and since when", "src/light.rs: Movement::state, since")], [LIGHT])

prop("C08", "Traffic lights carry out their programme on time",
     "The phases are run in the order they were added, cyclically; each is held until all of its movements have been green for the phase's duration, and then those not in the next phase turn amber, then red after their amber time, while those of the next phase turn green as soon as the conflicting ones have been red for their red times. "
     "The lights react at the first step boundary at which this is due, whatever the lengths of the steps, and adding further lights does not disturb those there are.",
     ["configurations", "schedules", "histories"], "every light without contradictory phases; every step schedule including zero-length steps",
     "there is no test of the traffic light at all",
     ["src/light.rs", "src/simulation.rs"],
     [("phase sequence", "src/light.rs: update_phase, apply_phase"), ("stepping every light once per step", "src/simulation.rs: update_lights")],
     [("current phase", "index of the phase", "src/light.rs: TrafficLight::phase")], [LIGHT])

prop("C09", "A closed link is not entered, and an opened one is entered again",
     "No vehicle enters a link that is closed, whether by the user or by a red or amber signal, unless it was too close to the stop line to stop comfortably when the link closed or when it was redirected into it (within its comfortable stopping distance plus 7.5 m). "
     "The first in line stops with its front before the line and near it (within 8 m), and one that stands there waiting to give way when the link is closed does not enter either. "
     "When the link opens again, all that waited drive on and arrive.",
     ALL, "every pattern of opening and closing, of any links on the way, along roads, at junctions and where streets part and meet, with any traffic and faults",
     "no test has a closed link or a signal",
     ["src/link.rs", "src/simulation.rs", "src/light.rs", "src/vehicle.rs"],
     [("stop lines", "src/link.rs: apply_stoplines"), ("lights drive the controls of links", "src/simulation.rs: update_lights")],
     [("entered links", "how far along its path a vehicle is committed", "src/vehicle.rs: Vehicle::entered")], [VEH, LIGHT])

prop("C10", "Nobody drives through a stop sign without stopping",
     "A vehicle enters a link whose control demands a stop only after it has come to a halt (below 0.1 m/s) within the control's distance of the stop line. "
     "Each vehicle halts for itself, also in a queue, and having halted it drives on when nothing prevents it, so that all arrive.",
     ALL, "every arrangement of stop signs on roads and junctions, with any traffic and faults",
     "one test has a stop sign but does not check that anyone halts",
     ["src/link.rs", "src/vehicle.rs"],
     [("queueing at a stop line", "src/link.rs: apply_stoplines; src/vehicle.rs: queue_link, has_stopped")],
     [("queue number", "when a vehicle queued at the stop line", "src/vehicle.rs: Vehicle::queued")], [VEH])

prop("C11", "Crossing traffic does not collide where it has right of way or signals",
     "At a junction where side roads give way to a main road, or where signals give each arm its own phase, cars from different arms never overlap, however they brake, are frozen or removed. ",
     ALL, "every junction of three or four arms with declared conflicts, every traffic of cars up to 5 m long and 2 m wide, fault sequence and step schedule",
     "one test has crossing traffic with fixed timing and does not check for collisions",
     ["src/link.rs", "src/conflict.rs", "src/simulation.rs"],
     [("gap acceptance", "src/link.rs: can_enter, check_gap"), ("conflict points", "src/conflict.rs"), ("stopping before an occupied conflict point", "src/conflict.rs: apply_accelerations")],
     [("conflict points", "where links come too close", "src/conflict.rs: ConflictPoint")], [VEH + " (outlines of the vehicles)"])

prop("C12", "At an all-way stop, first come is first served, without collisions or deadlock",
     "Where all arms of a junction have to stop with equal priority, a vehicle going straight on does not enter ahead of one that clearly stood at its line earlier, whose straight way it crosses, and which could be at that crossing no later than it. "
     "When the junction is empty, the one that has stood longest sets off within 1.5 s. No two cars from different arms overlap.",
     ALL, "every junction of three or four arms, every arrival pattern of equal cars up to 5 m long, freezes and removals, every step schedule",
     "one test has a stop sign, with a fixed arrival pattern, and checks no order",
     ["src/link.rs", "src/vehicle.rs", "src/conflict.rs"],
     [("queue numbers decide between equal priorities", "src/link.rs: can_enter, check_gap"), ("numbers are handed out on stopping", "src/vehicle.rs: integrate")],
     [("queue number", "when a vehicle queued at the stop line", "src/vehicle.rs: Vehicle::queued")], [VEH])

prop("C13", "Vehicles take a quickest route",
     "The route a vehicle takes from where it is added, or from where it is redirected, to its destination is one whose total free-flow travel time (length over speed limit, in tenths of a second, rounded down per link) is the least possible. "
     "It never leaves the network of links that lead to its destination.",
     ["configurations", "histories", "fault_sequences"], "every grid of one-way streets with differing lengths and limits and roads turning in and off in mid-block, every destination in it, and every redirection",
     "the tests have networks with a single route each",
     ["src/vehicle/pathfinding.rs", "src/vehicle.rs", "src/simulation.rs"],
     [("shortest path search", "src/vehicle/pathfinding.rs"), ("replanning", "src/simulation.rs: calculate_lane_changes")],
     [("route", "the links a vehicle is going to take", "src/vehicle.rs: Vehicle::route")], [VEH + " (sequence of links)"])

prop("C14", "Once disturbances end, every vehicle arrives",
     "When all vehicles have been released and all links are open or properly signalled, every vehicle that has a reachable destination leaves the simulation at it within bounded time, whatever freezes, removals, redirections (made half a second or more before the turning), and changes of control went before. ",
     ALL, "every network family, up to six lanes of which the farthest may be the one to get to, fault sequence (except vehicles frozen inside or at the edge of a junction, which may gridlock it) and step schedule; 150 s or more by family, and longer while vehicles keep leaving",
     "the tests end after fixed times without faults",
     ["src/simulation.rs", "src/link.rs", "src/vehicle.rs", "src/vehicle/pathfinding.rs"],
     [("planning, right of way and following leave no deadlock", "src/simulation.rs: step")],
     [], [VEH])

prop("C15", "Lane changes go only to permitted lanes, smoothly, and are completed",
     "A vehicle changes only to a lane of its group that it is permitted to change to, staying abreast of where it was along the road; it then moves over gradually and steadily, neither turning back nor overshooting nor with a sudden turn, setting off the way it was facing, and drives in the middle of the new lane once it has covered the change's distance (30 m where it decides by itself). "
     "An explicitly requested change takes place.",
     ALL, "every group of two to six parallel, straight or curved lanes, permissions, explicit and own changes, and step schedules",
     "one test has two lanes and checks nothing but that it runs",
     ["src/vehicle.rs", "src/group.rs", "src/simulation.rs"],
     [("lateral offset", "src/vehicle.rs: LaneChange, update_coords"), ("projection between lanes", "src/group.rs"), ("permission masks", "src/group.rs: lane_changes; src/simulation.rs: add_link_group")],
     [("lane change", "lateral offset as a cubic that decays with distance", "src/vehicle.rs: Vehicle::lane_change")], [VEH, "permitted lane changes of a link"])

prop("C28", "All ways of looking at the simulation agree, and settings stick",
     "A vehicle looked up by its id and found by iterating over all vehicles is one and the same; its front and rear are half a length ahead of and behind its position, and it counts as stopped exactly when it is slower than 0.1 m/s. "
     "Its destination is the one last set and its id never comes to mean another vehicle, also after others were removed or have left. "
     "Links report the connections, lanes, lengths and limits they were given, also when the network is extended while it is in use.",
     ["histories", "fault_sequences", "configurations"], "every history of additions, removals, arrivals, redirections and lane changes",
     "the tests look at vehicles in one way only and never after others have left",
     ["src/simulation.rs", "src/vehicle.rs", "src/link.rs"],
     [("lookup and iteration", "src/simulation.rs: get_vehicle, iter_vehicles"), ("getters", "src/vehicle.rs: pos_front, pos_rear, has_stopped, destination")],
     [], [VEH, "link getters"])

CMP = "deterministic simulation with fault injection: seeded search, paired runs compared"

prop("C16", "The same inputs give the same simulation, whatever else is going on",
     "Running the same operations and steps on the same network twice gives exactly the same positions, speeds, headings, signals and departures at every step. "
     "This holds whatever the operating system's random numbers are (as long as speeds are not randomised) and whatever other simulations are run in between in the same process.",
     ["histories", "schedules", "configurations"], "every network, traffic, fault sequence and step schedule; other entropy; other simulations interleaved",
     "no test runs anything twice, and tests cannot control the entropy",
     ["src/simulation.rs", "src/vehicle.rs", "src/link.rs", "src/util.rs"],
     [("iteration in the order of ids, without hashing or global state", "src/simulation.rs: step"), ("the only entropy used is for speed randomisation", "src/simulation.rs: randomise_velocity_adjusts")],
     [], [VEH, LIGHT], technique=CMP)

prop("C17", "Unconnected parts of a network do not influence one another",
     "Two road networks in one simulation that are not connected, share no lanes or signals and were not declared to conflict behave exactly as each would by itself, even where they lie on top of one another. "
     "This includes what faults in the one part do to the other: nothing.",
     ["configurations", "histories", "fault_sequences"], "every pair of networks, also if one of them is built while the other is running, their traffic, and all faults in either",
     "the tests have one small network at a time",
     ["src/simulation.rs", "src/link.rs", "src/conflict.rs", "src/group.rs"],
     [("interaction only along connections, within groups and at declared conflicts", "src/link.rs: apply_accelerations; src/conflict.rs")],
     [], [VEH, LIGHT], technique=CMP)

prop("C18", "Steps of no duration change nothing",
     "Inserting steps of length zero anywhere leaves the positions, speeds, signals and arrivals at all other steps as they were, apart from rounding. "
     "In such a step no vehicle moves.",
     ["schedules", "histories"], "every single-lane network, traffic and fault sequence, and any number of zero-length steps anywhere",
     "the tests use one fixed step length",
     ["src/simulation.rs", "src/light.rs", "src/vehicle.rs"],
     [("countdowns are in simulated time", "src/simulation.rs: step"), ("integration", "src/vehicle.rs: integrate")],
     [], [VEH, LIGHT], technique=CMP)

prop("C20", "It does not matter where the network lies and which way it faces",
     "Turning the whole network by quarter turns turns the coordinates and headings of all vehicles with it and changes nothing else: the same positions along the links, speeds, lane changes, decisions at junctions and arrivals. "
     "The same holds for mirroring it, as where people drive on the other side of the road, and for shifting it by a whole number of metres.",
     ["configurations", "histories"], "every network, traffic and fault sequence; all quarter turns, with and without mirroring; shifts of up to hundreds of metres",
     "the tests have each network in one place only",
     ["src/link/curve.rs", "src/group.rs", "src/conflict.rs", "src/math.rs", "src/vehicle.rs"],
     [("geometry by dot products, projections and distances only", "src/math.rs, src/conflict.rs, src/group.rs")],
     [], [VEH], technique=CMP)

prop("C21", "Traffic in a neighbouring lane does not disturb those who keep their lane",
     "On parallel lanes between which changing is not permitted, each vehicle drives just as it would if the other lanes were empty, and nobody ever changes lanes. "
     "That holds also beside vehicles that are braking, frozen, removed or much faster or slower.",
     ["configurations", "histories", "fault_sequences"], "every group of straight or curved lanes at least 3 m apart, traffic on each, faults and step schedules",
     "one test has two lanes, without comparing anything",
     ["src/link.rs", "src/group.rs", "src/vehicle.rs"],
     [("obstacles on other lanes count only if in the way", "src/link.rs: follow_obstacles; src/vehicle.rs: can_pass"), ("permission masks", "src/group.rs")],
     [], [VEH], technique=CMP)

prop("C22", "Drivers react only to what is ahead of them",
     "On a single-lane road, what a vehicle does is not influenced by the vehicles behind it: it drives exactly the same whether or not they are there, close or far, braking, frozen or removed. ",
     ["configurations", "histories", "fault_sequences"], "every road with one entrance, traffic on it, faults and step schedules; those behind left out from any point in the file",
     "no test compares two runs",
     ["src/link.rs", "src/vehicle/acceleration.rs", "src/simulation.rs"],
     [("each vehicle follows the one ahead", "src/link.rs: apply_accelerations")],
     [("vehicle order", "vehicles of a link from back to front", "src/link.rs: Link::vehicles")], [VEH], technique=CMP)

prop("C25", "Side roads give way to the main road, and go when it is clear",
     "Where a side road has to give way to a main road it crosses, nobody pulls out of the side road if a vehicle coming on the main road within the limit could be at the crossing of their ways before them or less than half a second after them. "
     "Traffic on the main road drives as if it were alone until somebody could rightly have pulled out before it. "
     "Whoever stands first at the give-way line with nobody able to get in their way sets off within 1.5 s.",
     ALL, "every crossing of a main road (open or of higher priority) by side roads, traffic going straight on, arrival pattern, freezes and removals, closings of the side roads, and step schedules",
     "one test has a priority junction, with a single arrival pattern, and checks no right of way",
     ["src/link.rs", "src/conflict.rs", "src/vehicle.rs"],
     [("gap acceptance", "src/link.rs: can_enter, check_gap"), ("earliest arrival of others at the conflict", "src/vehicle.rs: min_reach_time"), ("conflict points", "src/conflict.rs")],
     [("queue number", "when a vehicle queued at the line", "src/vehicle.rs: Vehicle::queued"), ("conflicts of a link", "where other links cross it", "src/link.rs: Link::conflicts")],
     [VEH], technique="deterministic simulation with fault injection: seeded search, run-time monitors, paired runs compared")

prop("C19", "Randomised speeds are drawn anew for each vehicle, within bounds",
     "When speeds are randomised with a given spread, each vehicle present gets a factor of its own, drawn about 1 with that spread and kept between 0.75 and 1.25, and from then on drives at the limit times that factor where the road is clear. "
     "It keeps its factor until speeds are randomised again, on whatever links it comes to; vehicles added later drive at the plain limit until then, and with a spread of zero everybody does.",
     ["histories", "configurations", "schedules"], "every spread from 0 to large, every sequence of randomisations and additions, limits and accelerations, and the whole range of operating-system entropy",
     "the tests never randomise speeds, and cannot control the entropy the draw depends on",
     ["src/simulation.rs", "src/vehicle.rs", "src/vehicle/acceleration.rs"],
     [("drawing the factors", "src/simulation.rs: randomise_velocity_adjusts"), ("applying them to the limits", "src/vehicle/acceleration.rs: apply_current_speed_limit, apply_speed_limit")],
     [("speed factor", "by which a vehicle scales every limit", "src/vehicle/acceleration.rs: AccelerationModel::vel_adj")], [VEH],
     note="Entropy is replaced by a seeded stream when linking; spread and mean of the factors are tested within each run, at six standard errors.")

prop("C23", "The routes on offer are just those that can be driven",
     "The list of all routes of a network has each pair of an entrance (a link nothing leads into) and an exit (a link that leads nowhere) at most once. "
     "A vehicle sent along any pair on the list arrives, also if it is halted for a while on the way and has to change lanes; one sent between an entrance and an exit that are not on the list never does.",
     ["configurations", "histories", "schedules"], "every network of roads, trees, grids, lanes with any permissions, and junctions, or two of them at once; up to six pairs on and six pairs off the list are driven per network",
     "no test asks for the routes",
     ["src/simulation.rs", "src/link.rs", "src/group.rs", "src/vehicle/pathfinding.rs"],
     [("search over links and permitted lane changes", "src/simulation.rs: all_routes"), ("planning", "src/vehicle/pathfinding.rs: reroute, make_paths")],
     [], ["Simulation::all_routes", VEH], technique=CMP)

prop("C24", "Whatever is asked of it, the simulation carries on and reports sense",
     "No sequence of the operations on offer, on any network, makes a step or an operation crash or hang: vehicles added on top of one another or bound for places they cannot reach, redirections and lane changes at any moment, contradictory signals and controls, freezing or removing vehicles that have left, steps of up to a second. "
     "All along, every number reported is finite, nobody drives backwards or faster than any limit allows, headings are unit vectors and everybody is on or near the road. "
     "Nobody leaves but at the end of their destination, except within 30 s after being sent elsewhere.",
     ALL, "every network (also if extended in mid-run) including roads strewn about and connected at random, up to 25 vehicles of any size and up to 60 operations at any time, steps of 0 to 1 s",
     "the tests perform no operation but adding vehicles",
     ["src/simulation.rs", "src/link.rs", "src/vehicle.rs", "src/group.rs", "src/conflict.rs", "src/light.rs"],
     [("operations", "src/simulation.rs"), ("lists of vehicles kept by the links", "src/link.rs: insert_vehicle, remove_vehicle"), ("searches that must end", "src/vehicle.rs: can_pass; src/math/curve/algorithms.rs")],
     [("vehicle order", "vehicles of a link from back to front", "src/link.rs: Link::vehicles")], [VEH, LIGHT])

prop("C26", "Followers keep their headway, and nobody stands without cause",
     "A vehicle that has driven evenly behind another for a while follows it at a gap of 2 m plus its headway times its speed: no closer, and, if it would rather go faster, no farther. "
     "A vehicle that stands, is not frozen, has more than 4 m of clear road before it and is not at a line where it may have to wait sets off within half a second.",
     ["configurations", "histories", "fault_sequences", "schedules"], "every column of vehicles with headways, accelerations and speed factors of their own, halted and released, removed from the middle, on one or many links and at lights and stop signs, and every step schedule",
     "no test measures a gap or has a queue that dissolves",
     ["src/vehicle/acceleration.rs", "src/link.rs", "src/vehicle.rs"],
     [("car following law", "src/vehicle/acceleration.rs: follow_vehicle"), ("looking ahead across links", "src/link.rs: apply_accelerations, process_vehicles")],
     [("headway and least gap", "what the law asks for at a given speed", "src/vehicle/acceleration.rs: AccelerationModel::headway")], [VEH + " (front and rear positions, speed)"])

prop("C27", "Nobody changes lanes needlessly, and nobody is carried past their exit",
     "On a carriageway a vehicle changes lanes of its own accord only if that leaves it with fewer lane changes to its destination than before, and it never drives on into a stretch from which it needs more of them, or cannot get there at all. "
     "One that stands with nobody within 60 m, unfrozen, beside a permitted lane that would bring it nearer to its destination changes into it within three seconds.",
     ["configurations", "histories", "fault_sequences", "schedules"], "every carriageway of up to six lanes and several stretches with permissions of their own, every destination, halts and forced changes in between, and every step schedule",
     "no test has a vehicle change lanes by itself",
     ["src/vehicle/pathfinding.rs", "src/group.rs", "src/simulation.rs"],
     [("costs of lane changes by the distance left for them", "src/vehicle/pathfinding.rs"), ("permitted changes", "src/group.rs: lane_changes"), ("carrying out the first step of the plan", "src/simulation.rs: calculate_lane_changes")],
     [("plan", "the links a vehicle is going to take", "src/vehicle/pathfinding.rs")], [VEH + " (link, position, speed)"])

prop("C29", "Vehicles do not touch when lanes are changed with room to do so",
     "If every lane change begins with enough room to the vehicles beside, ahead and behind for comfortable braking, no two vehicles on a carriageway ever overlap. "
     "In particular those behind in the lane being left wait as long as the one changing is in their way, also when it is halted half way, and those in the lane it moves into follow it from the start.",
     ["configurations", "histories", "fault_sequences", "schedules"], "every carriageway of 2 to 6 parallel lanes 3.5 m apart, straight or bent, vehicles of differing sizes and speeds, lane changes over 20 to 60 m at any moment, halted at any point, and steps of up to 0.2 s",
     "no test has two vehicles near each other during a lane change",
     ["src/vehicle.rs", "src/link.rs", "src/group.rs"],
     [("the width a vehicle takes up in its old lane", "src/vehicle.rs: rear_lats, can_pass"), ("obstacles projected onto neighbouring lanes", "src/link.rs: follow_obstacles; src/group.rs: projections_from_link")],
     [("lane change in progress", "lateral offset over distance", "src/vehicle.rs: LaneChange")], [VEH + " (coordinates, heading, size)"])

prop("C30", "The geometry helpers agree with the curves they are given",
     "Sampling a curve evenly gives points on it at the arc lengths asked for, looking up a length is the inverse of looking up a parameter, and two curves are reported to cross exactly where they do. ",
     ["configurations"], "every curve and pair of curves",
     "the tests sample a few curves",
     ["src/math/curve/algorithms.rs", "src/math/lut.rs", "src/math/cubic.rs"],
     [("equidistant sampling, crossing search, lookup tables, cubic offsets", "src/math/curve/algorithms.rs, src/math/lut.rs")],
     [], ["values returned by pure functions"])

prop("C31", "What is undone before time passes leaves no trace",
     "A vehicle that is added and removed again between two steps, one that is frozen and released or released and frozen again, and a control that is changed and set back make no difference to anything that happens afterwards, to anyone. "
     "Neither does freezing or removing a vehicle that has already gone.",
     ["configurations", "histories", "fault_sequences", "schedules"], "every network, traffic, fault sequence and step schedule; operations undone at any moments, from now and then to almost every step",
     "no test freezes, removes or re-controls anything, let alone compares two histories",
     ["src/simulation.rs", "src/link.rs", "src/vehicle.rs"],
     [("bookkeeping of vehicles on links, frozen vehicles and controls", "src/simulation.rs: add_vehicle, remove_vehicle, set_vehicle_frozen; src/link.rs: insert_vehicle, remove_vehicle, set_control")],
     [("vehicles in order along each link", "position along the link", "src/link.rs: vehicles"), ("frozen vehicles", "list of ids", "src/simulation.rs: frozen_vehs")], [VEH], technique=CMP)

NOT = [{"property": "C30", "reason": "Pure functions of their arguments: no clock, schedule, state, entropy or fault for a simulator to control; plain property tests would be the tool. Their effect on vehicles, links and junctions is covered by C03, C11, C15 and C20."}]


exec(open(os.path.join(ROOT, "tools", "more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "more.py")) else None

P.sort(key=lambda p: p["id"])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"].strip(),
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]],
                "observe_at": list(p["observe"]),
                "hook_needed": None,
            },
        }) + "\n")

skip = {n["property"] for n in NOT}
manifest = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks are needed: the checks use the public API, and replace operating-system entropy when linking the harness", "source_commits": []},
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"bash check.sh {p['id']}",
        "thorough_cmd": f"bash check.sh {p['id']}",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"] or "deterministic simulation with fault injection: seeded search, run-time monitors",
        "level": "exploration",
        "level_note": p["note"] or "Seeded exploration of whole runs of the real code under a controlled clock, entropy and fault schedule; holds for the executions explored, within the generated networks and traffic named in the evidence.",
    } for p in P if p["id"] not in skip],
    "not_applicable": NOT,
    "notes": "One seed is one exactly repeatable execution; a replay file is rerun with: harness/target/release/dst replay FILE. See DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
