//! Runs in isolation: each on a thread of its own, with its own entropy
//! stream, and with panics turned into results.

use crate::entropy;
use crate::spec::Scenario;
use crate::world::*;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

/// Remembers where a panic came from instead of printing it.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let what = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((at, what)));
    }));
}

/// A violation class that stands for a fault of the harness itself.
pub const HARNESS: &str = "harness-error";

/// Runs `f` on a fresh thread with the given entropy.
pub fn isolated<T: Send + 'static>(seed: u64, f: impl FnOnce() -> T + Send + 'static) -> Result<T, Violation> {
    let h = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            entropy::seed(seed);
            catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
                LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("?".into(), "?".into()))
            })
        })
        .expect("cannot spawn a thread");
    match h.join() {
        Ok(Ok(x)) => Ok(x),
        Ok(Err((at, what))) => {
            // the harness's own files are named relative to its root
            let class = if at.starts_with("src/") { HARNESS } else { "panic" };
            Err(Violation {
                class: class.into(),
                detail: format!("panicked at {at}: {what}"),
            })
        }
        Err(_) => Err(Violation {
            class: HARNESS.into(),
            detail: "a run's thread died".into(),
        }),
    }
}

/// Runs a scenario under monitors made by `m`.
pub fn monitored(sc: &Scenario, m: fn(&Scenario) -> Vec<Box<dyn Monitor>>) -> RunResult {
    let s = sc.clone();
    match isolated(sc.entropy, move || execute(&s, &mut m(&s))) {
        Ok(r) => r,
        Err(v) => RunResult { violation: Some(v), stats: Default::default() },
    }
}

/// Runs a scenario and keeps every observation after a step.
pub fn recorded(sc: &Scenario, entropy: u64) -> Result<(Vec<Snap>, RunStats), Violation> {
    let s = sc.clone();
    isolated(entropy, move || {
        let log = std::rc::Rc::new(RefCell::new(vec![]));
        let mut m: Vec<Box<dyn Monitor>> = vec![Box::new(Recorder(log.clone()))];
        let r = execute(&s, &mut m);
        drop(m);
        (std::rc::Rc::try_unwrap(log).unwrap().into_inner(), r.stats)
    })
}

struct Recorder(std::rc::Rc<RefCell<Vec<Snap>>>);

impl Monitor for Recorder {
    fn step(&mut self, _c: &Ctx, _dt: f64, _a: &Snap, b: &Snap, _p: &mut Probes) -> Result<(), Violation> {
        self.0.borrow_mut().push(b.clone());
        Ok(())
    }
}
