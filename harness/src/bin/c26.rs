//! C26: the reported cycle is the solution of the engine's physics
use proptest::prelude::*;
use sett_rs::fluid::Fluid;
use serde::{Deserialize, Serialize};
use settlab::case::*;
use settlab::must;
use settlab::phys::*;
use settlab::rt::*;

/// The reported cycle against an independent integration from its first point
fn cycle(case: &EngineCase, obs: &mut Obs) -> Verdict {
    let Ok(e) = case.run() else {
        obs.label("not converged");
        return Ok(());
    };
    if !case.regular(&e) {
        obs.label("not regular");
        return Ok(());
    }
    let m = Model::of_engine(&e);
    let c = Cyc::of(&e);
    let y0 = [c.p[0], c.tc[0], c.te[0]];
    // Errors of the steps add up; one that contains the reversal of a flow, where the
    // derivative of the temperature jumps, is off by thousands of tolerances
    let ode =
        case.set.ode.1 + case.set.ode.0 / c.te.iter().chain(c.tc).fold(f64::MAX, |a, b| a.min(*b));
    let tol = (4e4 * ode).max(2e-6);
    let Some(reference) = m.integrate(c.t, y0, (ode * 1e-2).clamp(1e-11, 1e-8), 400_000) else {
        obs.label("no reference");
        return Ok(());
    };
    obs.nontrivial();
    case.labels(obs);
    obs.label(format!("ode tolerance 1e{}", ode.log10().round()));
    let flow = c.max_flow();
    let fluid = case.fluid.make();
    let heat = c.max_heat().max(
        flow * fluid.cp(case.t_source.max(case.t_sink), case.p0) * case.t_source.max(case.t_sink),
    );
    let names = ["P", "T_c", "T_e"];
    for i in 0..c.len() {
        for (k, got) in [c.p[i], c.tc[i], c.te[i]].into_iter().enumerate() {
            let want = reference[i][k];
            let d = (got - want).abs() / want;
            let tol = if k == 0 { 0.5 * tol } else { tol };
            obs.max(names[k], d / tol);
            must!(
                d <= tol,
                "{} at point {i} is {got:e} instead of {want:e} (relative difference {d:e}, allowed {tol:e})",
                names[k]
            );
        }
        // The flows of the reference
        let y = reference[i];
        let hint = Some((c.m[0][i] >= 0., c.m[3][i] >= 0.));
        let s = m.solve(c.t[i], y[0], y[1], y[2], hint);
        let lim = tol;
        for (k, name) in ["m_dot_ck", "m_dot_kr", "m_dot_rl", "m_dot_le"]
            .into_iter()
            .enumerate()
        {
            let d = (c.m[k][i] - s.m[k]).abs() / flow;
            obs.max(name, d / lim);
            must!(
                d <= lim,
                "{name} at point {i} is {:e} instead of {:e} (allowed {:e})",
                c.m[k][i],
                s.m[k],
                lim * flow
            );
        }
        for (name, got, want) in [
            ("Q_dot_k", c.qk[i], s.qk),
            ("Q_dot_r", c.qr[i], s.qr),
            ("Q_dot_l", c.ql[i], s.ql),
        ] {
            let d = (got - want).abs() / heat;
            obs.max(name, d / lim);
            must!(
                d <= lim,
                "{name} at point {i} is {got:e} instead of {want:e} (allowed {:e})",
                lim * heat
            );
        }
    }
    Ok(())
}

/// The reference simulated from the exchanger temperatures until it settles
///
/// `None` when it doesn't within `cycles`; otherwise the number of cycles and the settled start.
fn settle(
    case: &EngineCase,
    rtol: f64,
    cycles: usize,
    limit: impl Fn(f64, f64) -> bool,
) -> Option<(usize, [f64; 3])> {
    let fluid = case.fluid.make();
    let fixed = |s: &HxSpec| s.fixed();
    let t = temps(
        case.t_sink,
        case.t_source,
        fixed(&case.chx),
        fixed(&case.regen),
        fixed(&case.hhx),
    );
    let m = Model::of_case(case, &fluid, t);
    let mut y = [case.p0, t.k, t.l];
    let low = match case.fluid {
        FluidSpec::Helium => 130.,
        FluidSpec::Hydrogen => 100.,
        _ => 0.,
    };
    // Gas heated beyond the fits of its properties, in volumes almost without clearance
    let high = (3. * case.t_sink.max(case.t_source)).min(2500.);
    const STEPS: usize = 128;
    let times: Vec<f64> = (0..=STEPS)
        .map(|i| i as f64 / STEPS as f64 * m.period)
        .collect();
    for n in 1..=cycles {
        let path = m.integrate(&times, y, rtol, 60_000)?;
        if path
            .iter()
            .any(|y| !(y[1] > low && y[2] > low && y[1] < high && y[2] < high))
        {
            return None;
        }
        let end = path[STEPS];
        let done = limit(y[1], end[1]) && limit(y[2], end[2]);
        y = [case.p0, end[1], end[2]];
        if done {
            return Some((n, y));
        }
    }
    None
}

/// Engines whose reference settles converge, to the same cycle
fn steady(case: &EngineCase, obs: &mut Obs) -> Verdict {
    let (abs, rel) = case.set.inner;
    // Noise of the integrator, mostly from the reversals of the flows, in the way of settling
    let t = case.t_sink.max(case.t_source);
    let noisy =
        3e4 * (case.set.ode.0 + case.set.ode.1 * t) > abs.min(rel * case.t_sink.min(case.t_source));
    let r = case.run();
    // Well within the limits: much closer than requested, in half the iterations
    let close = |a: f64, b: f64| {
        let d = (a - b).abs();
        d < 0.2 * abs && d < 0.2 * rel * a.abs().min(b.abs())
    };
    let rtol = (0.01 * case.set.ode.1).clamp(1e-10, 1e-7);
    let Some((n, _)) = settle(case, rtol, case.set.max_inner / 2, close) else {
        obs.label(if r.is_ok() {
            "only the run settles"
        } else {
            "neither settles"
        });
        return Ok(());
    };
    let e = match r {
        Ok(e) => e,
        Err(_) if noisy => {
            obs.label("not converged with a noisy integrator");
            return Ok(());
        }
        Err(e) => {
            return Err(format!(
                "the engine settles within {n} cycles but the run fails with {} ({} iterations allowed)",
                error_name(&e),
                case.set.max_inner
            ))
        }
    };
    obs.nontrivial();
    case.labels(obs);
    obs.label(format!(
        "{} cycles",
        if n < 3 {
            "1-2"
        } else if n < 10 {
            "3-9"
        } else if n < 30 {
            "10-29"
        } else {
            "30-"
        }
    ));
    // The settled cycle; contraction is at least as fast as the iteration limit implies
    let tight = |a: f64, b: f64| (a - b).abs() < 1e-8 * a.abs();
    if case.set.ode.1 <= 1e-8 && case.set.inner.1 <= 1e-6 {
        if let Some((_, y)) = settle(case, 1e-10, 60, tight) {
            for (name, got, want) in [
                ("T_c", e.values.T_c[0], y[1]),
                ("T_e", e.values.T_e[0], y[2]),
            ] {
                let d = (got - want).abs();
                let lim = 2e-5 * want;
                obs.max(name, d / lim);
                obs.label("settled state compared");
                must!(
                    d <= lim,
                    "{name} starts at {got} K instead of {want} K (allowed difference {lim:e})"
                );
            }
        }
    }
    Ok(())
}

/// Engines most of which have to be as accurate as requested
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Batch {
    engines: Vec<EngineCase>,
}

/// Largest error of the reported cycle in units of the tolerance of the integrator
fn error_of(case: &EngineCase) -> Option<f64> {
    let e = case.run().ok()?;
    if !case.regular(&e) {
        return None;
    }
    let m = Model::of_engine(&e);
    let c = Cyc::of(&e);
    let (abs, rel) = case.set.ode;
    let y0 = [c.p[0], c.tc[0], c.te[0]];
    let reference = m.integrate(c.t, y0, 1e-11, 400_000)?;
    let mut worst = 0f64;
    for i in 1..c.len() {
        for (got, want) in [c.p[i], c.tc[i], c.te[i]].into_iter().zip(reference[i]) {
            worst = worst.max((got - want).abs() / (abs + rel * want));
        }
    }
    Some(worst)
}

/// Errors of single engines with flows that reverse are much larger than the tolerance, but not those of most
fn accuracy(b: &Batch, obs: &mut Obs) -> Verdict {
    let mut errors: Vec<f64> = b.engines.iter().filter_map(error_of).collect();
    if errors.len() < 5 {
        obs.label("few converge");
        return Ok(());
    }
    obs.nontrivial();
    errors.sort_by(f64::total_cmp);
    let half = errors[errors.len() / 2];
    obs.max("median error in tolerances", half);
    obs.label(format!("median error 1e{}", half.log10().round()));
    must!(
        half < 1e3,
        "half of {} engines are off by more than {half:e} times what was requested of the integrator",
        errors.len()
    );
    Ok(())
}

fn accurate() -> BoxedStrategy<Batch> {
    // Either tolerance dominates
    let tol = (lg(1e-7, 1e-5), prop_oneof![lg(1e-9, 1.), lg(1., 1e5)]);
    let o = Opts { cond: false, res: Res::Exactly(9), ..Opts::default() };
    (prop::collection::vec(engine(o), 9..14), tol)
        .prop_map(|(mut engines, (rel, ratio))| {
            for c in &mut engines {
                c.set.ode = (rel * ratio * c.t_sink, rel);
                c.set.inner = (1., 1e-2);
                c.set.outer = (1., 1e-2);
            }
            Batch { engines }
        })
        .boxed()
}

fn main() {
    let opts = |acc: Acc, cond: bool| Opts {
        acc,
        cond,
        ..Opts::default()
    };
    Check::new(
        "C26",
        "Random engines against a reference simulation of five well-mixed volumes: the reported cycle from its first point on (cycle), and whether and to what engines with fixed approaches settle (steady), and the median error of batches of engines in units of the tolerances of the integrator (accuracy). Non-trivial: the reference can be calculated (helium above 130 K and hydrogen above 100 K only) and the run converges.",
    )
    .leg("cycle", 900, 30000, move || engine(opts(Acc::Any, true)), cycle)
    .leg("cycle tight", 500, 15000, move || engine(opts(Acc::Tight, true)), cycle)
    .leg("steady", 700, 20000, move || {
        engine(Opts { res: Res::Exactly(12), ..opts(Acc::Any, false) })
            .prop_map(|mut c| {
                let t = c.t_sink.max(c.t_source);
                let limit = c.set.inner.0.min(c.set.inner.1 * t.min(c.t_sink).min(c.t_source)) / (6.1e4 * t);
                if c.set.ode.1 > limit {
                    c.set.ode.1 = limit.max(1e-10);
                }
                c.set.ode.0 = c.set.ode.0.min(c.set.ode.1);
                c
            })
            .boxed()
    }, steady)
    .leg(
        "steady precise",
        300,
        10000,
        move || {
            engine(Opts { res: Res::Exactly(12), ..opts(Acc::Tight, false) })
                .prop_map(|mut c| {
                    c.set = Settings::precise(12);
                    c
                })
                .boxed()
        },
        steady,
    )
    .leg("accuracy", 400, 20000, accurate, accuracy)
    .run()
}
