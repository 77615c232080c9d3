//! C06: a converged run is a cyclic steady state at the requested pressure
use proptest::prelude::*;
use sett_rs::fluid::Fluid;
use settlab::case::*;
use settlab::phys::*;
use settlab::rt::*;
use settlab::{must, near};

fn steady(case: &EngineCase, obs: &mut Obs) -> Verdict {
    let Ok(e) = case.run() else {
        obs.label("not converged");
        return Ok(());
    };
    if !case.regular(&e) {
        obs.label("skipped: irregular");
        return Ok(());
    }
    case.labels(obs);
    obs.nontrivial();
    let c = Cyc::of(&e);
    let n = c.len() - 1;
    let (abs, rel) = case.set.inner;
    must!(c.p[0] == case.p0, "the cycle starts at {:e} Pa instead of {:e}", c.p[0], case.p0);
    must!(e.state.pres.t_zero == case.p0, "initial pressure {:e}, not {:e}", e.state.pres.t_zero, case.p0);
    let mut change = 0f64;
    for (name, s) in [("T_c", c.tc), ("T_e", c.te)] {
        let d = (s[n] - s[0]).abs();
        let round = 1e-11 * s[0].abs();
        must!(d < abs + round, "{name} changes by {d:e} K over the cycle, more than {abs:e}");
        must!(d / s[0].abs() < rel + 1e-11, "{name} changes by {:e} relative, more than {rel:e}", d / s[0]);
        obs.max("change of temperature / absolute limit", d / abs);
        obs.max("change of temperature / relative limit", d / s[0].abs() / rel);
        change = change.max(d / s[0].abs());
    }
    // The rest of the state follows
    let ode = case.set.ode.1 + case.set.ode.0 / c.tc[0].min(c.te[0]).min(c.p[0]);
    let slack = 10. * change + 1e4 * ode;
    if slack < 0.05 {
        near!(obs, "pressure at the end", c.p[n], c.p[0], slack * c.p[0], "{slack:e}");
        // flows may be zero, for example without any change of volume
        let floor = 1e-6 * case.cap();
        let flow = c.max_flow() + floor / case.fluid.make().cp(c.tc[0], c.p[0]);
        let heat = c.max_heat() + floor * c.tc[0].max(c.te[0]);
        let wide = 30. * slack;
        for k in 0..4 {
            near!(obs, "mass flow at the end", c.m[k][n], c.m[k][0], wide * flow, "flow {k}");
        }
        for (k, s) in [c.qk, c.qr, c.ql].iter().enumerate() {
            near!(obs, "heat flow at the end", s[n], s[0], wide * heat, "heat {k}");
        }
        obs.label("flows compared");
    }
    Ok(())
}

fn main() {
    let any = Opts { res: Res::Small, ..Opts::default() };
    let loose = Opts { acc: Acc::Any, res: Res::Any, ..Opts::default() };
    Check::new(
        "C06",
        "Random engines and settings; non-trivial when the run converges.",
    )
    .leg("any-settings", 2000, 60000, move || engine(loose), steady)
    .leg(
        "one-sided",
        700,
        30000,
        move || {
            // One of the two tolerances is by far the stricter one
            let tol = prop_oneof![(lg(1e-8, 1e-3), lg(1., 1e9)), (lg(1e-8, 1e-3), lg(1e-9, 1.))];
            (engine(Opts { cond: false, ..any }), tol, lg(0.1, 1e6))
                .prop_map(|(mut c, (abs, ratio), spread)| {
                    let t = c.t_sink.max(c.t_source);
                    // (strict, lax) in units of K and relative
                    c.set.inner = if ratio > 1. { (abs, abs * ratio / t) } else { (abs * t * spread.max(1.), abs / 10.) };
                    c.set.ode = (1e-10, 1e-10);
                    c.set.max_inner = 200;
                    c
                })
                .boxed()
        },
        steady,
    )
    .leg("tight", 800, 30000, move || engine(any), steady)
    .run()
}
