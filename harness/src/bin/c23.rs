//! C23: a run never panics and never returns values that aren't finite
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sett_rs::{api, Components};
use settlab::case::*;
use settlab::parts::*;
use settlab::rt::*;

/// What replaces a number of an engine
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum To {
    /// Multiplied by a power of ten
    Scaled(i32),
    /// Entry of `VALUES`
    Value(u8),
}

const VALUES: [f64; 22] = [
    0.,
    -0.,
    5e-324,
    1e-300,
    1e-100,
    1e-30,
    1e-12,
    1e-6,
    1e-3,
    1.,
    1e3,
    1e6,
    1e12,
    1e30,
    1e100,
    1e50,
    -1e100,
    -1.,
    -1e6,
    f64::NAN,
    f64::INFINITY,
    f64::NEG_INFINITY,
];

impl To {
    fn apply(self, x: &mut f64) {
        match self {
            To::Scaled(e) => *x *= 10f64.powi(e),
            To::Value(i) => *x = VALUES[usize::from(i) % VALUES.len()],
        }
    }
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
enum What {
    Frequency,
    /// Any number of the drive
    Drive(u8),
    /// Volume of an exchanger
    Volume(u8),
    /// Approach or conductance of an exchanger
    Kind(u8),
    Hydraulic(u8),
    Wall(u8),
    Parasitic(u8),
    Pressure,
    Sink,
    Source,
    /// Both temperatures are equal
    Isothermal,
    Ode(u8),
    Inner(u8),
    Outer(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    engine: EngineCase,
    changes: Vec<(What, To)>,
    resolution: u32,
    iters: (usize, usize),
    solver: u8,
}

impl Case {
    fn make(&self) -> EngineCase {
        let mut c = self.engine.clone();
        c.solver = [Solver::Lu, Solver::Qr, Solver::Svd][usize::from(self.solver) % 3];
        c.set.resolution = self.resolution;
        c.set.max_inner = self.iters.0;
        c.set.max_outer = self.iters.1;
        for (what, to) in &self.changes {
            let hx = |c: &mut EngineCase, i: u8, f: &mut dyn FnMut(&mut HxSpec)| match i % 3 {
                0 => f(&mut c.chx),
                1 => f(&mut c.regen),
                _ => f(&mut c.hhx),
            };
            match *what {
                What::Frequency => {
                    let f = match &mut c.drive {
                        DriveSpec::Sin { f, .. }
                        | DriveSpec::Rhombic { f, .. }
                        | DriveSpec::Fourier { f, .. } => f,
                    };
                    let old = *f;
                    to.apply(f);
                    // a speed is a positive number
                    if !(*f > 0. && f.is_finite()) {
                        *f = old;
                    }
                }
                What::Drive(i) => match &mut c.drive {
                    DriveSpec::Sin {
                        phase,
                        vsc,
                        vcc,
                        vse,
                        vce,
                        ..
                    } => to.apply([phase, vsc, vcc, vse, vce][usize::from(i) % 5]),
                    DriveSpec::Rhombic {
                        vcc,
                        vce,
                        r,
                        l,
                        e,
                        dp,
                        dd,
                        ..
                    } => to.apply([vcc, vce, r, l, e, dp, dd][usize::from(i) % 7]),
                    DriveSpec::Fourier { vc, ve, .. } => to.apply([vc, ve][usize::from(i) % 2]),
                },
                What::Volume(i) => hx(&mut c, i, &mut |h| to.apply(&mut h.vol)),
                What::Hydraulic(i) => hx(&mut c, i, &mut |h| to.apply(&mut h.r_hyd)),
                What::Kind(i) => hx(&mut c, i, &mut |h| match &mut h.kind {
                    HxKind::Fixed(x) | HxKind::Cond(x) => to.apply(x),
                }),
                What::Wall(i) => {
                    let w = if i % 2 == 0 { &mut c.r_c } else { &mut c.r_e };
                    to.apply(w.get_or_insert(1.));
                }
                What::Parasitic(i) => {
                    to.apply([&mut c.w_c, &mut c.w_e, &mut c.q_e][usize::from(i) % 3])
                }
                What::Pressure => to.apply(&mut c.p0),
                What::Sink => to.apply(&mut c.t_sink),
                What::Source => to.apply(&mut c.t_source),
                What::Isothermal => c.t_source = c.t_sink,
                What::Ode(i) => to.apply([&mut c.set.ode.0, &mut c.set.ode.1][usize::from(i) % 2]),
                What::Inner(i) => {
                    to.apply([&mut c.set.inner.0, &mut c.set.inner.1][usize::from(i) % 2])
                }
                What::Outer(i) => {
                    to.apply([&mut c.set.outer.0, &mut c.set.outer.1][usize::from(i) % 2])
                }
            }
        }
        c
    }
}

fn what() -> BoxedStrategy<What> {
    prop_oneof![
        2 => Just(What::Frequency),
        5 => (0u8..7).prop_map(What::Drive),
        5 => (0u8..3).prop_map(What::Volume),
        4 => (0u8..3).prop_map(What::Kind),
        2 => (0u8..3).prop_map(What::Hydraulic),
        3 => (0u8..2).prop_map(What::Wall),
        1 => (0u8..3).prop_map(What::Parasitic),
        3 => Just(What::Pressure),
        2 => Just(What::Sink),
        2 => Just(What::Source),
        1 => Just(What::Isothermal),
        2 => (0u8..2).prop_map(What::Ode),
        2 => (0u8..2).prop_map(What::Inner),
        2 => (0u8..2).prop_map(What::Outer),
    ]
    .boxed()
}

fn to(reach: i32) -> BoxedStrategy<To> {
    prop_oneof![
        3 => (-reach..=reach).prop_map(To::Scaled),
        2 => (0..VALUES.len() as u8).prop_map(To::Value),
    ]
    .boxed()
}

/// Extremes that engines may still run at
fn mild() -> BoxedStrategy<To> {
    prop_oneof![
        8 => (-6i32..=6).prop_map(To::Scaled),
        1 => Just(To::Value(0)),
    ]
    .boxed()
}

fn case(count: std::ops::Range<usize>, to: fn() -> BoxedStrategy<To>) -> BoxedStrategy<Case> {
    let o = Opts {
        acc: Acc::Any,
        solvers: false,
        ..Opts::default()
    };
    (
        engine(o),
        prop::collection::vec((what(), to()), count),
        prop_oneof![2 => 0u32..4, 4 => 4u32..60, 1 => 60u32..2000],
        (
            prop_oneof![1 => 0usize..4, 3 => Just(40usize)],
            prop_oneof![1 => 0usize..3, 3 => Just(12usize)],
        ),
        0u8..3,
    )
        .prop_map(|(engine, changes, resolution, iters, solver)| Case {
            engine,
            changes,
            resolution,
            iters,
            solver,
        })
        .boxed()
}

fn finite(c: &Case, obs: &mut Obs) -> Verdict {
    let e = c.make();
    let mut probe = Probe::new(e.ws());
    probe.max_calls = 20_000;
    let calls = probe.calls.clone();
    let run = guard(|| {
        e.run_with(Components {
            ws: Box::new(probe),
            chx: e.chx.chx(),
            regen: e.regen.regen(),
            hhx: e.hhx.hhx(),
        })
    });
    for (what, _) in &c.changes {
        let name = format!("{what:?}");
        obs.label(format!("changed {}", name.split('(').next().unwrap_or("")));
    }
    let run = match run {
        Ok(run) => run,
        Err((at, _)) if at == "stop" => {
            obs.label("stopped after 20000 evaluations");
            return Ok(());
        }
        Err((at, msg)) => return Err(format!("panic at {at}: {msg}")),
    };
    obs.nontrivial();
    let run = match run {
        Ok(run) => run,
        Err(err) => {
            obs.label(format!("fails with {}", error_name(&err)));
            if calls.get() == 0 {
                obs.label("fails at once");
            }
            return Ok(());
        }
    };
    obs.label(format!("runs with {:?}", e.solver));
    for (what, to) in &c.changes {
        let name = format!("{what:?}");
        let name = name.split('(').next().unwrap_or("").to_string();
        match to {
            To::Scaled(_) => obs.label(format!("runs with scaled {name}")),
            To::Value(_) => obs.label(format!("runs with replaced {name}")),
        }
    }
    let s = &run.state;
    let v = &run.values;
    let list = |name: &str, values: &[f64]| -> Verdict {
        match values.iter().position(|x| !x.is_finite()) {
            Some(i) => Err(format!("{name} is {} at point {i}", values[i])),
            None => Ok(()),
        }
    };
    let check = |values: [(&str, &[f64]); 11]| -> Verdict {
        values.iter().try_for_each(|(name, v)| list(name, v))
    };
    check([
        ("time", &v.time),
        ("P", &v.P),
        ("T_c", &v.T_c),
        ("T_e", &v.T_e),
        ("m_dot_ck", &v.m_dot_ck),
        ("m_dot_kr", &v.m_dot_kr),
        ("m_dot_rl", &v.m_dot_rl),
        ("m_dot_le", &v.m_dot_le),
        ("Q_dot_k", &v.Q_dot_k),
        ("Q_dot_r", &v.Q_dot_r),
        ("Q_dot_l", &v.Q_dot_l),
    ])?;
    list(
        "a pressure of the state",
        &[s.pres.avg, s.pres.max, s.pres.min, s.pres.t_zero],
    )?;
    list(
        "a temperature of the state",
        &[
            s.temp.sink,
            s.temp.chx,
            s.temp.regen.cold,
            s.temp.regen.avg,
            s.temp.regen.hot,
            s.temp.hhx,
            s.temp.source,
        ],
    )?;
    list(
        "a mass flow of the state",
        &[s.mass_flow.chx, s.mass_flow.regen, s.mass_flow.hhx],
    )?;
    list(
        "a heat flow of the state",
        &[s.heat_flow.chx, s.heat_flow.regen, s.heat_flow.hhx],
    )?;
    calls.set(0);
    let r = guard(|| api::RunResults::from(run))
        .map_err(|(at, msg)| format!("the results of a run that succeeds panic at {at}: {msg}"))?;
    let (p, t, m, h) = (&r.pressure, &r.temperature, &r.mass_flow, &r.heat_flow);
    list("a pressure", &[p.avg, p.max, p.min, p.t_zero])?;
    list(
        "a temperature",
        &[
            t.sink,
            t.chx,
            t.regen_cold,
            t.regen_avg,
            t.regen_hot,
            t.hhx,
            t.source,
        ],
    )?;
    list("a mass flow", &[m.chx, m.regen, m.hhx])?;
    list("a heat flow", &[h.chx, h.regen, h.hhx])?;
    list("the ideal indicated power", &[r.power.ideal_indicated])?;
    let v = &r.values;
    check([
        ("time", &v.time),
        ("P", &v.P),
        ("T_c", &v.T_c),
        ("T_e", &v.T_e),
        ("m_dot_ck", &v.m_dot_ck),
        ("m_dot_kr", &v.m_dot_kr),
        ("m_dot_rl", &v.m_dot_rl),
        ("m_dot_le", &v.m_dot_le),
        ("Q_dot_k", &v.Q_dot_k),
        ("Q_dot_r", &v.Q_dot_r),
        ("Q_dot_l", &v.Q_dot_l),
    ])
}

fn main() {
    Check::new(
        "C23",
        "Random engines with some of their numbers scaled by up to 40 orders of magnitude or replaced by zero, denormal, huge, negative, infinite and undefined ones, any resolution and iteration limits, and each of the decompositions. Non-trivial: the run ends by itself.",
    )
    .leg("mild", 1500, 50000, || case(1..4, mild), finite)
    .must_end(150)
    .leg("extreme", 2500, 150000, || case(1..3, || to(40)), finite)
    .must_end(150)
    .leg("several", 1000, 80000, || case(2..8, || to(12)), finite)
    .must_end(150)
    .run()
}
