//! C27: components see the engine's actual average state
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sett_rs::fluid::Fluid;
use sett_rs::{api, Components};
use settlab::case::*;
use settlab::near;
use settlab::parts::*;
use settlab::phys::*;
use settlab::rt::*;

/// Dependence of the approach of an exchanger on what it is shown
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Law {
    /// Added to the initial guess
    off: f64,
    /// Per degree of its own temperature difference
    temp: f64,
    /// Per relative change of pressure, in K
    pres: f64,
    /// Per unit of heat flow relative to the typical one, in K
    heat: f64,
    /// Per unit of mass flow relative to the typical one, in K
    mass: f64,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    engine: EngineCase,
    laws: [Law; 3],
}

fn law() -> BoxedStrategy<Law> {
    let some = |lim: f64| prop_oneof![1 => Just(0.), 1 => -lim..lim];
    (-20f64..20., some(0.3), some(10.), some(10.), some(10.))
        .prop_map(|(off, temp, pres, heat, mass)| Law {
            off,
            temp,
            pres,
            heat,
            mass,
        })
        .boxed()
}

fn case(acc: Acc) -> BoxedStrategy<Case> {
    let o = Opts {
        acc,
        res: Res::Any,
        ..Opts::default()
    };
    (engine(o), [law(), law(), law()])
        .prop_map(|(engine, laws)| Case { engine, laws })
        .boxed()
}

/// An exchanger of the given law; `to` is the direction of the approach
fn hx(c: &Case, spec: &HxSpec, law: &Law, regen: bool, to: f64) -> Hx {
    let (kind, law) = (spec.kind, law.clone());
    let base = if spec.is_fixed() { spec.fixed() } else { 25. };
    let cap = c.engine.cap();
    let (p0, cp) = (
        c.engine.p0,
        c.engine.fluid.make().cp(c.engine.t_sink, c.engine.p0),
    );
    let t = c.engine.t_sink.max(c.engine.t_source);
    let offset = law.off;
    Hx::new(spec.vol, spec.r_hyd, base + offset, move |s| {
        let h = &s.hxr;
        match kind {
            HxKind::Fixed(dt) => {
                let diff = if regen {
                    0.2 * (s.b - s.a)
                } else {
                    to * (h.temp - s.a)
                };
                dt + law.temp * diff
                    + law.pres * (h.pres / p0 - 1.)
                    + law.heat * h.Q_dot / (cap * t)
                    + law.mass * h.m_dot * cp / cap
            }
            HxKind::Cond(_) if regen => approach_regen(kind, h.m_dot * h.cp, s.a, s.b),
            HxKind::Cond(_) => approach_hx(kind, h.Q_dot, h.m_dot * h.cp),
        }
    })
}

/// The state of the reported cycle as an exchanger should see it
struct Want {
    temp: f64,
    a: f64,
    b: f64,
    m: f64,
    q: f64,
}

fn shown(
    name: &str,
    what: &str,
    s: &Seen,
    want: &Want,
    avg: &Averages,
    fluid: &AnyFluid,
    scale: (f64, f64),
    obs: &mut Obs,
) -> Verdict {
    let h = &s.hxr;
    near!(
        obs,
        "temperature",
        h.temp,
        want.temp,
        1e-11 * want.temp,
        "shown to the {name} for its {what}"
    );
    near!(
        obs,
        "sink, source or neighbour",
        s.a,
        want.a,
        1e-11 * want.a,
        "shown to the {name} for its {what}"
    );
    if want.b.is_finite() {
        near!(
            obs,
            "sink, source or neighbour",
            s.b,
            want.b,
            1e-11 * want.b,
            "shown to the {name} for its {what}"
        );
    }
    near!(
        obs,
        "average pressure",
        h.pres,
        avg.p,
        1e-9 * avg.p,
        "shown to the {name} for its {what}"
    );
    let (d, cp) = (fluid.dens(want.temp, avg.p), fluid.cp(want.temp, avg.p));
    near!(
        obs,
        "density",
        h.dens,
        d,
        1e-8 * d,
        "shown to the {name} for its {what}"
    );
    near!(
        obs,
        "specific heat",
        h.cp,
        cp,
        1e-8 * cp,
        "shown to the {name} for its {what}"
    );
    near!(
        obs,
        "mass flow",
        h.m_dot,
        want.m,
        1e-9 * scale.0,
        "shown to the {name} for its {what}"
    );
    near!(
        obs,
        "heat flow",
        h.Q_dot,
        want.q,
        1e-9 * scale.1,
        "shown to the {name} for its {what}"
    );
    Ok(())
}

fn seen(c: &Case, obs: &mut Obs) -> Verdict {
    let e = &c.engine;
    let parts = [
        hx(c, &e.chx, &c.laws[0], false, 1.),
        hx(c, &e.regen, &c.laws[1], true, 0.),
        hx(c, &e.hhx, &c.laws[2], false, -1.),
    ];
    let probe = Probe::new(e.ws());
    let drive_log = probe.log.clone();
    let logs: Vec<Log> = parts.iter().map(|p| p.log.clone()).collect();
    let [chx, regen, hhx] = parts;
    let components = Components {
        ws: Box::new(probe),
        chx: Box::new(chx),
        regen: Box::new(regen),
        hhx: Box::new(hhx),
    };
    let run = match e.run_with(components) {
        Ok(run) => run,
        Err(err) => {
            obs.label(format!("failed {}", error_name(&err)));
            return Ok(());
        }
    };
    let cyc = Cyc::of(&run);
    let model = Model::of_engine(&run);
    let avg = cyc.averages(&model);
    let t = &run.state.temp;
    let walls = |r: f64, dt: f64| if r.is_finite() { dt / r } else { 0. };
    let scale = (
        cyc.max_flow(),
        cyc.max_heat()
            + walls(e.resistance().comp, max_abs(cyc.tc))
            + walls(e.resistance().exp, max_abs(cyc.te)),
    );
    if !(cyc.max_flow() > 0.) {
        return Ok(());
    }
    let want = [
        Want {
            temp: t.chx,
            a: e.t_sink,
            b: f64::NAN,
            m: avg.m[0],
            q: avg.q[0],
        },
        Want {
            temp: t.regen.avg,
            a: t.chx,
            b: t.hhx,
            m: avg.m[1],
            q: avg.q[1],
        },
        Want {
            temp: t.hhx,
            a: e.t_source,
            b: f64::NAN,
            m: avg.m[2],
            q: avg.q[2],
        },
    ];
    let names = ["cold exchanger", "regenerator", "hot exchanger"];
    let fluid = e.fluid.make();
    // The approach that was found to be the one of the cycle
    let mut evaluations = 0;
    for i in 0..3 {
        let log = logs[i].borrow();
        let approaches: Vec<&Seen> = log
            .iter()
            .filter(|l| l.0 == What::Approach)
            .map(|l| &l.1)
            .collect();
        let Some(last) = approaches.last() else {
            return Err(format!(
                "the approach of the {} is never evaluated",
                names[i]
            ));
        };
        evaluations = evaluations.max(approaches.len());
        shown(
            names[i], "approach", last, &want[i], &avg, &fluid, scale, obs,
        )?;
    }
    obs.nontrivial();
    e.labels(obs);
    obs.label(match evaluations {
        1 => "1 evaluation",
        2..=4 => "2-4 evaluations",
        5..=15 => "5-15 evaluations",
        _ => "more than 15 evaluations",
    });
    for l in &logs {
        l.borrow_mut().clear();
    }
    drive_log.borrow_mut().clear();
    // Everything that is evaluated for the results
    drop(model);
    let _ = api::RunResults::from(run);
    for i in 0..3 {
        for (what, s) in logs[i].borrow().iter() {
            let what = match what {
                What::Approach => "approach",
                What::Hydraulic => "hydraulic resistance",
                What::Parasitics => "parasitics",
            };
            obs.label(format!("{} {what} in results", names[i]));
            shown(names[i], what, s, &want[i], &avg, &fluid, scale, obs)?;
        }
    }
    for (what, p) in drive_log.borrow().iter() {
        obs.label(format!("drive {what:?} in results"));
        let want = [avg.p, avg.p_max, avg.p_min, avg.p_zero];
        for (k, name) in ["average", "maximum", "minimum", "initial"]
            .into_iter()
            .enumerate()
        {
            near!(
                obs,
                "pressure of the drive",
                p[k],
                want[k],
                1e-9 * want[k],
                "{name} pressure shown for {what:?}"
            );
        }
    }
    Ok(())
}

fn main() {
    Check::new(
        "C27",
        "Random engines whose exchangers are recording components with approaches that depend on everything they are shown (or follow from a conductance), and whose drive is recorded; compared with the averages of the reported series. Non-trivial: the run converges and gas flows.",
    )
    .leg("seen", 700, 25000, || case(Acc::Any), seen)
    .leg("seen tight", 250, 8000, || case(Acc::Tight), seen)
    .run()
}
