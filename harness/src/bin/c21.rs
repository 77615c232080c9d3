//! C21: similarity in pressure, size and speed
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use settlab::case::*;
use settlab::must;
use settlab::pairs::*;
use settlab::parts::Probe;
use settlab::rt::*;
use sett_rs::Components;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Pair {
    engine: EngineCase,
    pres: f64,
    size: f64,
    speed: f64,
}

fn scaled(c: &Pair) -> EngineCase {
    scale_engine(&c.engine, c.pres, c.size, c.speed)
}

fn check(c: &Pair, obs: &mut Obs) -> Verdict {
    let case = &c.engine;
    let other = scaled(c);
    let (tol, flows) = if case.all_fixed() { (1e-5, 5e-6) } else { (3e-5, 3e-5) };
    let probe = Probe::new(case.ws());
    let cycles = probe.cycles.clone();
    let a = case.run_with(Components { ws: Box::new(probe), ..case.components() });
    let (a, b) = match (a, other.run()) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(_), _) => {
            obs.label("not converged");
            return Ok(());
        }
        (Ok(a), Err(e)) => {
            if !case.all_fixed() || !case.regular(&a) || 2 * cycles.get() > case.set.max_inner {
                obs.label("only one converged");
                return Ok(());
            }
            return Err(format!("an engine converges but a similar one fails with {}", error_name(&e)));
        }
    };
    let (mut a, b) = (Flat::of(case, a), Flat::of(&other, b));
    if !a.regular || !b.regular {
        obs.label("not regular");
        return Ok(());
    }
    obs.nontrivial();
    case.labels(obs);
    for (name, x) in [("pressure", c.pres), ("size", c.size), ("speed", c.speed)] {
        if x != 1. {
            obs.label(format!("other {name}"));
        }
    }
    let flow = c.pres * c.size * c.speed;
    a.multiply(Class::Pressure, c.pres);
    a.multiply(Class::Flow, flow);
    a.multiply(Class::Heat, flow);
    a.multiply(Class::Power, flow);
    a.multiply(Class::Torque, c.pres * c.size);
    must!(a.time.len() == b.time.len(), "there are {} points instead of {}", b.time.len(), a.time.len());
    for (i, (x, y)) in a.time.iter().zip(&b.time).enumerate() {
        let x = x / c.speed;
        must!((x - y).abs() <= 1e-9 * (a.time[a.time.len() - 1] / c.speed), "time {i} is {y:e} instead of {x:e}");
    }
    a.agrees(&b, None, tol, flows, true, obs)
}

fn main() {
    let factor = || prop_oneof![1 => Just(1.), 2 => lg(0.03, 30.), 1 => lg(1e-4, 1e4)];
    let speed = || prop_oneof![1 => Just(1.), 3 => lg(0.03, 30.)];
    Check::new(
        "C21",
        "Random ideal gas engines and the same engines with another pressure, size or speed and everything that has to be scaled accordingly. Non-trivial: both converge (helium above 130 K and hydrogen above 100 K only).",
    )
    .leg(
        "similar",
        700,
        30000,
        move || {
            (engine(Opts::default()), factor(), factor(), speed())
                .prop_map(|(mut engine, pres, size, speed)| {
                    engine.set = Settings::precise(engine.set.resolution);
                    if let FluidSpec::Virial { a, b, .. } = &mut engine.fluid {
                        (*a, *b) = (0., 0.);
                    }
                    Pair { engine, pres, size, speed }
                })
                .boxed()
        },
        check,
    )
    .run()
}
