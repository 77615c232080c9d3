//! C32: similarity in temperature and in the properties of the gas
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use settlab::case::*;
use settlab::must;
use settlab::pairs::*;
use settlab::parts::Probe;
use settlab::rt::*;
use sett_rs::Components;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Pair {
    engine: EngineCase,
    /// Factors of all temperatures, of the gas constant with the specific heats, and of all pressures
    temp: f64,
    gas: f64,
    pres: f64,
    /// Energy of the reference state, relative to the enthalpy at the temperature of the sink
    href: f64,
}

/// The engine with a gas that has a scale
fn scalable(mut e: EngineCase) -> EngineCase {
    e.set = Settings::precise(e.set.resolution);
    let perfect = |r: f64, c0: f64| FluidSpec::Virial { r, c0, c1: 0., a: 0., b: 0., href: 0. };
    e.fluid = match e.fluid {
        FluidSpec::Helium => perfect(2077.23, 5193.17),
        FluidSpec::Hydrogen => perfect(4124.2, 14500.),
        v => v,
    };
    e
}

fn similar(c: &Pair) -> EngineCase {
    let e = &c.engine;
    let (k, g, p) = (c.temp, c.gas, c.pres);
    let fluid = match e.fluid {
        FluidSpec::Virial { r, c0, c1, a, b, href } => FluidSpec::Virial {
            r: r * g,
            c0: c0 * g,
            c1: c1 * g / k,
            a: a * g * k * k / p,
            b: b * g * k / p,
            href: (href + c.href * c0 * e.t_sink) * g * k,
        },
        ref f => f.clone(),
    };
    // Heat and power are proportional to the pressure alone, mass flows to p / (k g)
    let hx = |s: &HxSpec| HxSpec {
        kind: match s.kind {
            HxKind::Fixed(dt) => HxKind::Fixed(dt * k),
            HxKind::Cond(ua) => HxKind::Cond(ua * p / k),
        },
        vol: s.vol,
        r_hyd: s.r_hyd * p,
        w: s.w * p,
        q: s.q * p,
    };
    EngineCase {
        fluid,
        r_c: e.r_c.map(|r| r * k / p),
        r_e: e.r_e.map(|r| r * k / p),
        w_c: e.w_c * p,
        w_e: e.w_e * p,
        q_e: e.q_e * p,
        chx: hx(&e.chx),
        regen: hx(&e.regen),
        hhx: hx(&e.hhx),
        p0: e.p0 * p,
        t_sink: e.t_sink * k,
        t_source: e.t_source * k,
        ..e.clone()
    }
}

fn check(c: &Pair, obs: &mut Obs) -> Verdict {
    let case = &c.engine;
    let other = similar(c);
    let (tol, flows) = if case.all_fixed() { (1e-5, 5e-6) } else { (3e-5, 3e-5) };
    let probe = Probe::new(case.ws());
    let cycles = probe.cycles.clone();
    let a = case.run_with(Components { ws: Box::new(probe), ..case.components() });
    let (a, b) = match (a, other.run()) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(_), _) => {
            obs.label("not converged");
            return Ok(());
        }
        (Ok(a), Err(e)) => {
            // The guesses for conductances don't scale with the temperature
            if !case.all_fixed() || !case.regular(&a) || 2 * cycles.get() > case.set.max_inner {
                obs.label("only one converged");
                return Ok(());
            }
            return Err(format!("an engine converges but a similar one fails with {}", error_name(&e)));
        }
    };
    let (mut a, b) = (Flat::of(case, a), Flat::of(&other, b));
    if !a.regular || !b.regular {
        obs.label("not regular");
        return Ok(());
    }
    obs.nontrivial();
    case.labels(obs);
    for (name, x) in [("temperature", c.temp), ("gas", c.gas), ("pressure", c.pres), ("reference state", c.href + 1.)] {
        if x != 1. {
            obs.label(format!("other {name}"));
        }
    }
    a.multiply(Class::Pressure, c.pres);
    a.multiply(Class::Temp, c.temp);
    a.multiply(Class::Flow, c.pres / (c.temp * c.gas));
    a.multiply(Class::Heat, c.pres);
    a.multiply(Class::Power, c.pres);
    a.multiply(Class::Torque, c.pres);
    must!(a.time == b.time, "the points in time are others");
    a.agrees(&b, None, tol, flows, true, obs)
}

fn main() {
    let k = || prop_oneof![1 => Just(1.), 2 => lg(0.3, 4.), 1 => lg(0.05, 20.)];
    let g = || prop_oneof![1 => Just(1.), 2 => lg(0.1, 10.)];
    let p = || prop_oneof![2 => Just(1.), 1 => lg(0.03, 30.)];
    let h = || prop_oneof![1 => Just(0.), 2 => -2f64..2., 1 => (any::<bool>(), lg(0.1, 30.)).prop_map(|(s, x)| if s { x } else { -x })];
    Check::new(
        "C32",
        "Random engines with perfect or real gases and the same engines with other temperatures, gas constant, pressures and energy of the reference state, and everything that has to be scaled accordingly; and engines that differ in the energy of the reference state alone. Non-trivial: both converge.",
    )
    .leg(
        "similar",
        600,
        25000,
        move || {
            (engine(Opts::default()), k(), g(), p(), prop_oneof![1 => Just(0.), 1 => h()])
                .prop_map(|(e, temp, gas, pres, href)| Pair { engine: scalable(e), temp, gas, pres, href })
                .boxed()
        },
        check,
    )
    .leg(
        "reference state",
        400,
        15000,
        move || {
            (engine(Opts::default()), h())
                .prop_map(|(e, href)| Pair { engine: scalable(e), temp: 1., gas: 1., pres: 1., href })
                .boxed()
        },
        check,
    )
    .run()
}
