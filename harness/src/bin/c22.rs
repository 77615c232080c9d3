//! C22: the matrix decomposition doesn't affect the results
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sett_rs::fluid::Fluid;
use settlab::case::*;
use settlab::pairs::*;
use settlab::rt::*;

/// Small differences of a run that solvers have to agree on repeatedly
///
/// A step of the integrator that contains the reversal of a flow has errors that change by much more than the
/// tolerance when it is moved only slightly, up to failing to converge, so that single runs mean little.
const VARIANTS: [(f64, f64); 4] = [(1., 1.), (1.003, 0.5), (0.996, 0.7), (1.0011, 0.3)];

fn compare(
    case: &EngineCase,
    solvers: (Solver, Solver),
    tol: f64,
    flows: f64,
    obs: &mut Obs,
) -> Result<bool, String> {
    let mut first = None;
    for (pres, ode) in VARIANTS {
        let mut c = case.clone();
        c.p0 *= pres;
        c.set.ode.0 *= ode;
        c.set.ode.1 = (c.set.ode.1 * ode).max(1e-10);
        c.solver = solvers.0;
        let a = c.run();
        c.solver = solvers.1;
        let b = c.run();
        let msg = match (a, b) {
            (Ok(a), Ok(b)) => {
                let (a, b) = (Flat::of(&c, a), Flat::of(&c, b));
                if !a.regular || !b.regular {
                    obs.label("not regular");
                    return Ok(false);
                }
                let mut seen = Obs::default();
                match a.agrees(&b, None, tol, flows, true, &mut seen) {
                    Ok(()) => {
                        obs.label(if first.is_some() {
                            "agree when repeated"
                        } else {
                            "agree"
                        });
                        return Ok(true);
                    }
                    Err(e) => e,
                }
            }
            (Err(_), Err(_)) => {
                obs.label("neither converges");
                return Ok(false);
            }
            (Ok(_), Err(e)) => format!(
                "{:?} converges but {:?} fails with {}",
                solvers.0,
                solvers.1,
                error_name(&e)
            ),
            (Err(e), Ok(_)) => format!(
                "{:?} converges but {:?} fails with {}",
                solvers.1,
                solvers.0,
                error_name(&e)
            ),
        };
        first.get_or_insert(msg);
    }
    Err(format!(
        "{:?} and {:?} differ: {}",
        solvers.0,
        solvers.1,
        first.unwrap_or_default()
    ))
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    engine: EngineCase,
}

/// The smallest magnitude of the columns of the state equations, which are those of the rates of change
fn smallest_column(c: &EngineCase) -> f64 {
    let fluid = c.fluid.make();
    let (_, vc, _, ve) = c.drive.scan();
    let t = c.t_sink.max(c.t_source);
    let d = fluid.dens(t, c.p0);
    let dp = (c.chx.vol + c.regen.vol + c.hhx.vol + vc + ve) * d / c.p0;
    let dt = vc.min(ve) * d / t;
    dp.min(dt)
}

fn lu_qr(c: &Case, obs: &mut Obs) -> Verdict {
    if compare(&c.engine, (Solver::Lu, Solver::Qr), 3e-5, 3e-5, obs)? {
        obs.nontrivial();
        c.engine.labels(obs);
    }
    Ok(())
}

/// Engines of which most have to give the same results
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Batch {
    engines: Vec<Case>,
}

/// The SVD loses single engines (a listed finding), but not half of those it is given
fn lu_svd(c: &Batch, obs: &mut Obs) -> Verdict {
    let (mut same, mut differ) = (0, Vec::new());
    for c in &c.engines {
        match compare(&c.engine, (Solver::Lu, Solver::Svd), 1e-2, 0.3, obs) {
            Ok(true) => {
                same += 1;
                c.engine.labels(obs);
                obs.label(format!(
                    "smallest column 1e{}",
                    smallest_column(&c.engine).log10().round()
                ));
            }
            Ok(false) => {}
            Err(e) => differ.push(e),
        }
    }
    if same + differ.len() < 4 {
        return Ok(());
    }
    obs.nontrivial();
    let Some(first) = differ.first().cloned() else {
        return Ok(());
    };
    if differ.len() > same {
        return Err(format!(
            "{} of {} engines: {first}",
            differ.len(),
            differ.len() + same
        ));
    }
    obs.finding("svd-inaccurate", first);
    Ok(())
}

/// Columns much smaller than the largest are lost
fn lu_svd_small(c: &Case, obs: &mut Obs) -> Verdict {
    if smallest_column(&c.engine) > 1e-15 {
        return Ok(());
    }
    if let Err(e) = compare(&c.engine, (Solver::Lu, Solver::Svd), 1e-2, 0.3, obs) {
        obs.nontrivial();
        obs.finding("svd-inaccurate", e);
    }
    Ok(())
}

fn batch() -> BoxedStrategy<Batch> {
    prop::collection::vec(case(Opts::default(), -2. ..4., rough), 4..10)
        .prop_map(|engines| Batch { engines })
        .boxed()
}

fn case(o: Opts, sizes: std::ops::Range<f64>, set: fn(u32) -> Settings) -> BoxedStrategy<Case> {
    (
        engine(Opts {
            solvers: false,
            ..o
        }),
        sizes,
        -2f64..2.,
        -2f64..1.5,
    )
        .prop_map(move |(e, size, speed, pres)| {
            let pres = if e.fluid.is_consistent() { 0. } else { pres };
            let mut engine =
                scale_engine(&e, 10f64.powf(pres), 10f64.powf(size), 10f64.powf(speed));
            engine.set = set(engine.set.resolution);
            Case { engine }
        })
        .boxed()
}

fn rough(resolution: u32) -> Settings {
    Settings {
        ode: (1e-6, 1e-6),
        inner: (0.1, 1e-3),
        outer: (0.1, 1e-3),
        ..Settings::tight(resolution)
    }
}

fn main() {
    Check::new(
        "C22",
        "Random engines scaled by up to ten orders of magnitude in size, four in speed and three in pressure, run with two decompositions; the SVD is only compared roughly since it only knows each rate of change relative to the largest. Four slightly different engines have to differ, and the SVD has to lose most engines of a batch. Non-trivial: both runs converge (helium above 130 K and hydrogen above 100 K only).",
    )
    .leg("lu qr", 350, 12000, || case(Opts::default(), -6. ..4., Settings::precise), lu_qr)
    .leg("lu svd", 80, 2500, batch, lu_svd)
    .leg("lu svd small", 40, 600, || case(Opts::default(), -6. ..-3., rough), lu_svd_small)
    .run()
}
