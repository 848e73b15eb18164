mod checks;
mod cmp;
mod driver;
mod entropy;
mod fam;
mod gen;
mod geom;
mod mon;
mod prng;
mod run;
mod scen;
mod spec;
mod world;

use checks::*;

fn usage() -> i32 {
    eprintln!("usage: dst check ID | replay FILE | one ID SEED RUN | show ID SEED RUN | trace FILE V,V T0 T1 EVERY | digest ID TIER SEED THREADS");
    2
}

fn env_seed() -> Result<u64, ()> {
    match std::env::var("VERIF_SEED") {
        Ok(s) => s.trim().parse::<u64>().map_err(|_| eprintln!("VERIF_SEED is not a number: {s}")),
        Err(_) => Ok(1),
    }
}

fn env_tier() -> Result<Tier, ()> {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Ok(Tier::Thorough),
        Ok("quick") | Err(_) => Ok(Tier::Quick),
        Ok(t) => {
            eprintln!("VERIF_TIER is neither quick nor thorough: {t}");
            Err(())
        }
    }
}

fn replay(path: &str) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {path}: {e}");
            return 2;
        }
    };
    let r: driver::Replay = match serde_json::from_str(&text) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{path} is not a replay file: {e}");
            return 2;
        }
    };
    let Some(p) = find(&r.property) else {
        eprintln!("no property {}", r.property);
        return 2;
    };
    match p.run(&r.scenario).violation {
        Some(v) if v.class == run::HARNESS => {
            eprintln!("harness error: {}", v.detail);
            2
        }
        Some(v) => {
            println!("{} {}: {}", p.id, v.class, v.detail);
            if v.class == r.class && v.detail == r.detail {
                println!("reproduced exactly");
            } else {
                println!("differs from the recorded {}: {}", r.class, r.detail);
            }
            println!("VIOLATION property={} replay={path}", p.id);
            1
        }
        None => {
            println!("{}: the recorded violation does not occur", p.id);
            0
        }
    }
}

fn main() {
    run::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let num = |s: &str| s.parse::<u64>().unwrap_or(0);
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get());
    let code = match a.as_slice() {
        ["list"] => {
            for p in PROPS {
                println!("{}", p.id);
            }
            0
        }
        ["check", id] => match (find(id), env_tier(), env_seed()) {
            (Some(p), Ok(t), Ok(s)) => driver::check(p, t, s),
            (None, ..) => {
                eprintln!("no property {id}");
                2
            }
            _ => 2,
        },
        ["worker", id, tier, seed] => {
            let t = if *tier == "thorough" { Tier::Thorough } else { Tier::Quick };
            driver::worker(find(id).unwrap(), t, num(seed), threads)
        }
        // the same search with another number of threads, to show it makes no difference
        ["digest", id, tier, seed, th] => {
            let t = if *tier == "thorough" { Tier::Thorough } else { Tier::Quick };
            driver::worker(find(id).unwrap(), t, num(seed), num(th) as usize)
        }
        ["one", id, seed, run] => {
            let p = find(id).unwrap();
            let sc = p.scenario(driver::run_seed(p, num(seed), num(run)));
            let r = p.run(&sc);
            println!("{:?}", r.violation);
            println!("{:016x} {:?}", r.stats.trace_hash, r.stats.probes);
            r.violation.is_some() as i32
        }
        ["show", id, seed, run] => {
            let p = find(id).unwrap();
            let sc = p.scenario(driver::run_seed(p, num(seed), num(run)));
            println!("{}", serde_json::to_string_pretty(&sc).unwrap());
            0
        }
        ["replay", path] => replay(path),
        ["trace", path, vs, t0, t1, every] => {
            let r: driver::Replay = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
            let f = |s: &str| s.parse::<f64>().unwrap();
            let vs: Vec<usize> = vs.split(',').map(|v| v.parse().unwrap()).collect();
            let (snaps, _) = run::recorded(&r.scenario, r.scenario.entropy).unwrap();
            let mut last = f64::NEG_INFINITY;
            for s in snaps.iter().filter(|s| s.t >= f(t0) && s.t <= f(t1)) {
                if s.t - last < f(every) {
                    continue;
                }
                last = s.t;
                print!("t={:8.3}", s.t);
                for v in &vs {
                    if let Some(x) = s.get(*v) {
                        print!("  v{v}: l{} p{:7.3} v{:6.3} ({:.2},{:.2}) h({:.3},{:.3}){}", x.link, x.pos, x.vel, x.xy[0], x.xy[1], x.dir[0], x.dir[1], if x.frozen { " F" } else { "" });
                    }
                }
                println!("  {:?}", s.lights);
            }
            0
        }
        _ => usage(),
    };
    std::process::exit(code);
}
