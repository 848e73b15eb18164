//! Families of scenarios.

use crate::gen::*;
use crate::geom::*;
use crate::prng::Rng;
use crate::spec::*;
use std::f64::consts::PI;

pub fn finish(family: &str, seed: u64, r: &mut Rng, net: Net, program: Vec<Op>) -> Scenario {
    Scenario {
        family: family.to_string(),
        seed,
        entropy: r.u64() >> 16,
        net,
        program,
    }
}

pub struct Junction {
    pub net: Net,
    /// Source link of each arm.
    pub src: Vec<usize>,
    /// The link leading up to the junction, per arm.
    pub approach: Vec<usize>,
    /// Exit link of each arm.
    pub exit: Vec<usize>,
    /// (from arm, to arm, link)
    pub moves: Vec<(usize, usize, usize)>,
}

/// A junction of three or four arms, right-hand traffic.
pub fn junction(r: &mut Rng, arms: usize, turns: bool, conv: bool) -> Junction {
    let mut net = Net::default();
    let half = r.f(9.0, 15.0);
    let lane = 2.0;
    let limit = r.f(8.0, 20.0);
    let mut src = vec![];
    let mut approach = vec![];
    let mut exit = vec![];
    let tilt = if r.chance(0.5) { r.f(-0.3, 0.3) } else { 0.0 };
    for k in 0..arms {
        let a = k as f64 * PI / 2.0 + if k % 2 == 1 { tilt } else { 0.0 };
        let out = [a.cos(), a.sin()];
        let right = mul(perp(out), -1.0);
        let la = r.f(60.0, 200.0);
        let le = r.f(50.0, 150.0);
        let inn = mul(right, -lane); // right-hand side when driving inwards
        let q0 = add(mul(out, half + la), inn);
        let q1 = add(mul(out, half), inn);
        let ap = net.link(Curve::Line([q0, q1]), limit);
        if r.chance(0.4) {
            let ls = r.f(40.0, 120.0);
            let qs = add(mul(out, half + la + ls), inn);
            let s = net.link(Curve::Line([qs, q0]), limit * r.f(0.9, 1.2));
            net.conn(s, ap);
            src.push(s);
        } else {
            src.push(ap);
        }
        approach.push(ap);
        let o = mul(right, lane);
        exit.push(net.link(
            Curve::Line([add(mul(out, half), o), add(mul(out, half + le), o)]),
            limit,
        ));
    }
    let mut moves = vec![];
    for i in 0..arms {
        for j in 0..arms {
            if i == j {
                continue;
            }
            let straight = (i + 2) % 4 == j;
            if !straight && !turns {
                continue;
            }
            let a = net.links[approach[i]].curve.end();
            let b = net.links[exit[j]].curve.start();
            let da = unit(sub(a, net.links[approach[i]].curve.start()));
            let db = unit(sub(net.links[exit[j]].curve.end(), b));
            let cross = da[0] * db[1] - da[1] * db[0];
            let cv = if cross.abs() < 0.2 {
                let k = dist(a, b) / 3.0;
                Curve::Cubic([a, add(a, mul(da, k)), sub(b, mul(db, k)), b])
            } else {
                // corner where the two tangents meet
                let d = sub(b, a);
                let s = (d[0] * db[1] - d[1] * db[0]) / cross;
                Curve::Quad([a, add(a, mul(da, s)), b])
            };
            let l = net.link(cv, if straight { limit } else { f64::min(limit, r.f(7.0, 10.0)) });
            net.conn(approach[i], l);
            net.conn(l, exit[j]);
            moves.push((i, j, l));
        }
    }
    if conv {
        for x in 0..moves.len() {
            for y in 0..x {
                if moves[x].0 != moves[y].0 {
                    net.conv.push((moves[y].2, moves[x].2));
                }
            }
        }
    }
    Junction {
        net,
        src,
        approach,
        exit,
        moves,
    }
}

impl Junction {
    /// Makes the last part of the way up to the junction of short links.
    pub fn cut(&mut self, r: &mut Rng, arm: usize) {
        let ap = self.approach[arm];
        let Curve::Line([a, b]) = self.net.links[ap].curve else { unreachable!() };
        let (d, limit) = (unit(sub(b, a)), self.net.links[ap].limit);
        let (mut to, mut next) = (b, ap);
        for k in 0..r.int(1, 5) {
            let len = r.f(6.0, 25.0);
            if dist(a, to) < len + 10.0 {
                break;
            }
            let from = sub(to, mul(d, len));
            if k == 0 {
                self.net.links[ap].curve = Curve::Line([from, to]);
            } else {
                let l = self.net.link(Curve::Line([from, to]), limit);
                self.net.conn(l, next);
                next = l;
            }
            to = from;
        }
        if next == ap && to == b {
            return;
        }
        let first = self.net.link(Curve::Line([a, to]), limit);
        for c in self.net.conns.iter_mut().filter(|c| c.1 == ap && c.0 != next) {
            if self.src[arm] == c.0 {
                c.1 = first;
            }
        }
        self.net.conn(first, next);
        if self.src[arm] == ap {
            self.src[arm] = first;
        }
    }

    pub fn traffic(&self, r: &mut Rng, vehicles: usize, headway: f64) -> Traffic {
        let dests = (0..self.src.len())
            .map(|i| {
                self.moves
                    .iter()
                    .filter(|m| m.0 == i)
                    .map(|m| self.exit[m.1])
                    .collect()
            })
            .collect();
        let _ = r;
        Traffic {
            sources: self.src.clone(),
            dests,
            vehicles,
            headway,
            no_dest: 0.0,
        }
    }

    /// One signal movement per arm, one phase per arm.
    pub fn split_light(&self, r: &mut Rng, red: f64) -> LightSpec {
        let n = self.src.len();
        let movements = (0..n)
            .map(|i| MovementSpec {
                conflict: ((1u64 << n) - 1) & !(1 << i),
                amber: odd(r.f(2.0, 4.0)),
                red: odd(red + r.f(0.0, 2.0)),
                links: self.moves.iter().filter(|m| m.0 == i).map(|m| m.2).collect(),
            })
            .collect();
        let phases = (0..n).map(|i| (1u64 << i, odd(r.f(4.0, 15.0)))).collect();
        LightSpec { movements, phases }
    }
}

/// A chain of links with branches: a tree of roads, single lane.
pub fn road_tree(r: &mut Rng, o: &RoadOpts, branch: f64) -> (Net, usize, Vec<usize>) {
    let mut net = Net::default();
    let (ids, cur) = chain(r, &mut net, Cur::new(0.0, 0.0, 0.0), o);
    let src = ids[0];
    let mut leaves = vec![];
    let mut tips = vec![(*ids.last().unwrap(), cur)];
    for depth in 0..2 {
        let mut next = vec![];
        for (tip, cur) in tips {
            if depth == 0 && r.chance(branch) || depth == 1 && r.chance(0.5 * branch) {
                for side in [1.0, -1.0] {
                    let o2 = RoadOpts {
                        min_links: 1,
                        max_links: 3,
                        limits: o.limits,
                        min_len: o.min_len,
                        max_len: o.max_len,
                        ..Default::default()
                    };
                    let ang = side * r.f(0.3, 1.2);
                    let rad = r.f(15.0, 40.0);
                    let (cv, c2) = cur.arc(rad, ang, 0.0);
                    let limit = net.links[tip].limit.min(12.0);
                    let turn = net.link(cv, limit);
                    net.conn(tip, turn);
                    let (ids, c3) = chain(r, &mut net, c2, &o2);
                    net.conn(turn, ids[0]);
                    next.push((*ids.last().unwrap(), c3));
                }
            } else {
                leaves.push(tip);
            }
        }
        tips = next;
    }
    leaves.extend(tips.iter().map(|t| t.0));
    (net, src, leaves)
}

pub struct Multi {
    pub net: Net,
    /// lanes[segment][lane]
    pub lanes: Vec<Vec<usize>>,
    pub exits: Vec<usize>,
}

/// A multi-lane carriageway of several segments, each a link group, with one
/// exit road per lane or none.
pub fn multilane(r: &mut Rng) -> Multi {
    let mut net = Net::default();
    let n = if r.chance(0.1) { r.int(5, 6) } else { r.int(2, 4) };
    let segs = r.int(1, 4);
    let mut cur = Cur::new(0.0, 0.0, r.f(0.0, 6.0));
    let mut limit = r.f(10.0, 25.0);
    let steady = r.chance(0.7);
    let mut lanes: Vec<Vec<usize>> = vec![];
    let free = r.chance(0.4);
    let first = r.chance(0.5);
    for s in 0..segs {
        let bend = r.chance(0.3);
        // room for as many lane changes as there are lanes to cross
        let len = r.f(120.0, 300.0) + if n > 4 { 40.0 * n as f64 } else { 0.0 };
        if !steady {
            limit = r.f(10.0, 25.0);
        }
        let ang = r.f(0.2, 0.6) * if r.chance(0.5) { 1.0 } else { -1.0 };
        let mut next = cur;
        let mut row = vec![];
        for i in 0..n {
            let off = ((n - 1) as f64 * 0.5 - i as f64) * 3.5;
            let (cv, nx) = if bend {
                cur.arc(len / ang.abs(), ang, off)
            } else {
                cur.line(len, off)
            };
            next = nx;
            row.push(net.link(cv, limit));
        }
        let mask = if free || first && s == 0 {
            lc_mask(n, |_, _| true)
        } else {
            let seed = r.u64();
            lc_mask(n, |i, right| (seed >> (2 * i + right as usize)) & 1 != 0)
        };
        net.groups.push((row.clone(), mask));
        if let Some(prev) = lanes.last() {
            for i in 0..n {
                net.conn(prev[i], row[i]);
            }
        }
        lanes.push(row);
        cur = next;
    }
    // one exit road per lane, or the carriageway just ends
    let mut exits = vec![];
    if r.chance(0.25) {
        exits = lanes.last().unwrap().clone();
    }
    for i in 0..n - exits.len() {
        let off = ((n - 1) as f64 * 0.5 - i as f64) * 3.5;
        let (cv, _) = cur.line(r.f(40.0, 90.0), off);
        let e = net.link(cv, limit);
        net.conn(lanes.last().unwrap()[i], e);
        exits.push(e);
    }
    Multi { net, lanes, exits }
}

/// A city grid of one-way streets between nodes; corners are sharp.
pub fn grid(r: &mut Rng) -> (Net, Vec<usize>, Vec<usize>) {
    let mut net = Net::default();
    let (nx, ny) = (r.int(2, 4), r.int(2, 4));
    let node = |i: usize, j: usize| i * ny + j;
    let xs: Vec<f64> = (0..nx).scan(0.0, |a, _| { *a += r.f(40.0, 160.0); Some(*a) }).collect();
    let ys: Vec<f64> = (0..ny).scan(0.0, |a, _| { *a += r.f(40.0, 160.0); Some(*a) }).collect();
    let mut edges: Vec<(usize, usize, usize)> = vec![];
    let add_edge = |net: &mut Net, r: &mut Rng, a: (usize, usize), b: (usize, usize)| {
        let l = net.link(
            Curve::Line([[xs[a.0], ys[a.1]], [xs[b.0], ys[b.1]]]),
            *r.pick(&[7.0, 9.0, 11.0, 13.9, 16.7, 22.0]),
        );
        (node(a.0, a.1), node(b.0, b.1), l)
    };
    for i in 0..nx {
        for j in 0..ny {
            if i + 1 < nx {
                edges.push(add_edge(&mut net, r, (i, j), (i + 1, j)));
                if r.chance(0.4) {
                    edges.push(add_edge(&mut net, r, (i + 1, j), (i, j)));
                }
            }
            if j + 1 < ny {
                edges.push(add_edge(&mut net, r, (i, j), (i, j + 1)));
                if r.chance(0.4) {
                    edges.push(add_edge(&mut net, r, (i, j + 1), (i, j)));
                }
            }
        }
    }
    // drop some turns, but keep every link left-connected somewhere
    let es = edges.clone();
    for (a0, a1, l) in &es {
        for (b0, b1, m) in &es {
            if a1 == b0 && !(a0 == b1) && r.chance(0.92) {
                net.conn(*l, *m);
            }
        }
    }
    // entry and exit stubs
    let mut srcs = vec![];
    let mut dsts = vec![];
    for _ in 0..r.int(1, 3) {
        let (i, j) = (r.below(nx), r.below(ny));
        let p = [xs[i], ys[j]];
        let q = add(p, [-r.f(30.0, 60.0), -r.f(20.0, 40.0)]);
        let s = net.link(Curve::Line([q, p]), 13.9);
        for (b0, _, m) in &es {
            if *b0 == node(i, j) {
                net.conn(s, *m);
            }
        }
        srcs.push(s);
    }
    for _ in 0..r.int(1, 3) {
        let (i, j) = (r.below(nx), r.below(ny));
        let p = [xs[i], ys[j]];
        let q = add(p, [r.f(30.0, 60.0), r.f(20.0, 40.0)]);
        let s = net.link(Curve::Line([p, q]), 13.9);
        for (_, b1, m) in &es {
            if *b1 == node(i, j) {
                net.conn(*m, s);
            }
        }
        dsts.push(s);
    }
    (net, srcs, dsts)
}

/// Set of links reachable from `src` (lane changes included).
pub fn reachable(net: &Net, src: usize) -> Vec<bool> {
    let mut seen = vec![false; net.links.len()];
    let mut stack = vec![src];
    while let Some(l) = stack.pop() {
        if seen[l] {
            continue;
        }
        seen[l] = true;
        stack.extend(net.outs(l));
        stack.extend(lane_neighbours(net, l));
    }
    seen
}

/// The lanes that may be changed into from `l`, by the network's masks.
pub fn lane_neighbours(net: &Net, l: usize) -> Vec<usize> {
    let mut out = vec![];
    for (ids, mask) in &net.groups {
        if let Some(i) = ids.iter().position(|x| *x == l) {
            if i > 0 && (mask >> (2 * i)) & 1 == 1 {
                out.push(ids[i - 1]);
            }
            if i + 1 < ids.len() && (mask >> (2 * i + 1)) & 1 == 1 {
                out.push(ids[i + 1]);
            }
        }
    }
    out
}

/// A time that never coincides with a multiple of a clock's step.
pub fn odd(x: f64) -> f64 {
    if x > 0.0 {
        x + 0.00037
    } else {
        x
    }
}

/// A random light with no contradictory phase.
pub fn random_light(r: &mut Rng, links: &[usize], max_mov: usize) -> LightSpec {
    let n = r.int(1, max_mov);
    let mut conflict = vec![0u64; n];
    let density = r.f(0.2, 1.0);
    for i in 0..n {
        for j in 0..i {
            if r.chance(density) {
                conflict[i] |= 1 << j;
                conflict[j] |= 1 << i;
            }
        }
    }
    let slow = r.chance(0.1);
    let most = if r.chance(0.1) { 12 } else { 5 };
    let mut phases = vec![];
    for _ in 0..r.int(1, most) {
        let mut order: Vec<usize> = (0..n).collect();
        r.shuffle(&mut order);
        let mut mask = 0u64;
        for i in order {
            if conflict[i] & mask == 0 && r.chance(0.7) {
                mask |= 1 << i;
            }
        }
        let dur = if r.chance(0.15) { 0.0 } else { odd(r.f(0.5, if slow { 70.0 } else { 12.0 })) };
        if mask != 0 || r.chance(0.1) {
            phases.push((mask, dur));
        }
    }
    if phases.is_empty() {
        phases.push((1, odd(r.f(1.0, 10.0))));
    }
    let mut own = vec![vec![]; n];
    for l in links {
        own[r.below(n)].push(*l);
    }
    LightSpec {
        movements: (0..n)
            .map(|i| MovementSpec {
                conflict: conflict[i],
                amber: if r.chance(0.1) { 0.0 } else { odd(r.f(0.5, if slow { 12.0 } else { 5.0 })) },
                red: if r.chance(0.1) { 0.0 } else { odd(r.f(0.2, if slow { 12.0 } else { 4.0 })) },
                links: own[i].clone(),
            })
            .collect(),
        phases,
    }
}
