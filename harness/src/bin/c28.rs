//! C28: the converged engine doesn't depend on the initial guess
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use settlab::case::*;
use settlab::must;
use settlab::pairs::*;
use settlab::rt::*;
use sett_rs::types::ParasiticPower;
use sett_rs::{chx, hhx, regen, Components};

/// A component with another initial approach
struct Guess<T: ?Sized> {
    inner: Box<T>,
    initial: f64,
}

macro_rules! guess {
    ($trait:path, $state:path) => {
        impl $trait for Guess<dyn $trait> {
            fn volume(&self) -> f64 {
                self.inner.volume()
            }
            fn approach(&self, s: &$state) -> f64 {
                self.inner.approach(s)
            }
            fn hydraulic_resistance(&self, s: &$state) -> f64 {
                self.inner.hydraulic_resistance(s)
            }
            fn parasitics(&self, s: &$state) -> ParasiticPower {
                self.inner.parasitics(s)
            }
            fn initial_approach(&self) -> f64 {
                self.initial
            }
        }
    };
}

guess!(chx::ColdHeatExchanger, chx::State);
guess!(regen::Regenerator, regen::State);
guess!(hhx::HotHeatExchanger, hhx::State);

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Guessed {
    engine: EngineCase,
    /// Relative to the temperatures of the engine
    guess: [f64; 3],
}

fn guessed(c: &Guessed, obs: &mut Obs) -> Verdict {
    let case = &c.engine;
    let n = case.components();
    let low = case.t_sink.min(case.t_source);
    let parts = Components {
        ws: n.ws,
        chx: Box::new(Guess { inner: n.chx, initial: c.guess[0] * case.t_sink }),
        regen: Box::new(Guess { inner: n.regen, initial: c.guess[1] * low }),
        hhx: Box::new(Guess { inner: n.hhx, initial: c.guess[2] * case.t_source }),
    };
    let (a, b) = match (case.run(), case.run_with(parts)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(_), Err(_)) => {
            obs.label("not converged");
            return Ok(());
        }
        _ => {
            obs.label("only one converged");
            return Ok(());
        }
    };
    if a.state.temp == b.state.temp {
        obs.label("same temperatures");
    }
    let (a, b) = (Flat::of(case, a), Flat::of(case, b));
    if !a.regular || !b.regular {
        obs.label("not regular");
        return Ok(());
    }
    obs.nontrivial();
    case.labels(obs);
    a.agrees(&b, None, 3e-5, 3e-5, true, obs)
}

/// Engines made of fixed approach components need one cycle calculation only
fn at_once(case: &EngineCase, obs: &mut Obs) -> Verdict {
    let mut once = case.clone();
    once.set.max_outer = 1;
    once.set.outer = (1e-12, 1e-15);
    match (case.run(), once.run()) {
        (Ok(a), Ok(b)) => {
            obs.nontrivial();
            case.labels(obs);
            must!(outcome(Ok(a)) == outcome(Ok(b)), "the first cycle of fixed approaches isn't the final one");
            Ok(())
        }
        (Err(_), Err(_)) => {
            obs.label("not converged");
            Ok(())
        }
        (Ok(_), Err(e)) => Err(format!("fixed approaches don't converge at once ({})", error_name(&e))),
        (Err(e), Ok(_)) => Err(format!("fixed approaches only converge at once ({})", error_name(&e))),
    }
}

fn main() {
    let opts = |cond: bool| Opts { cond, ..Opts::default() };
    Check::new(
        "C28",
        "Random engines whose exchangers suggest other initial approaches (guessed), and engines with fixed approaches that may only calculate a single cycle (at once). Non-trivial: both runs converge (helium above 130 K and hydrogen above 100 K only).",
    )
    .leg(
        "guessed",
        220,
        10000,
        move || {
            (
                prop_oneof![
                    3 => engine(Opts { fixed: false, ..opts(true) }),
                    2 => engine(opts(true)),
                ],
                [-0.25f64..0.6, -0.2f64..0.2, -0.6f64..0.25],
            )
                .prop_map(|(mut engine, guess)| {
                    engine.set = Settings::precise(engine.set.resolution);
                    Guessed { engine, guess }
                })
                .boxed()
        },
        guessed,
    )
    .leg("at once", 1500, 50000, move || engine(Opts { acc: Acc::Any, ..opts(false) }), at_once)
    .run()
}
