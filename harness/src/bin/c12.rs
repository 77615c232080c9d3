//! C12: exchanger pressure drops are split between the spaces and lossy only
use proptest::prelude::*;
use settlab::case::*;
use settlab::rt::*;
use settlab::{must, near};
use sett_rs::api::RunResults;
use sett_rs::fluid::Fluid;

fn drops(e: Eng, case: &EngineCase, obs: &mut Obs) -> Verdict {
    let fluid = case.fluid.make();
    let t = e.state.temp;
    let r = RunResults::from(e);
    let v = &r.values;
    let mut seen = [false; 3];
    for i in 0..v.time.len() {
        let parts = [
            (case.chx.r_hyd, v.m_dot_ck[i], v.m_dot_kr[i], t.chx),
            (case.regen.r_hyd, v.m_dot_kr[i], v.m_dot_rl[i], t.regen.avg),
            (case.hhx.r_hyd, v.m_dot_rl[i], v.m_dot_le[i], t.hhx),
        ];
        let (mut total, mut size) = (0., 0.);
        for (k, (r, a, b, t)) in parts.into_iter().enumerate() {
            let d = fluid.dens(t, v.P[i]);
            total += r * 0.5 * (a + b) / d;
            size += r * (a.abs() + b.abs()) / d;
            seen[k] |= (r * 0.5 * (a + b) / d).abs() > 1e-9 * v.P[i];
        }
        let tol = 1e-14 * v.P[i] + 1e-13 * size;
        near!(obs, "compression space pressure", v.P_c[i], v.P[i] + 0.5 * total, tol, "at point {i}");
        near!(obs, "expansion space pressure", v.P_e[i], v.P[i] - 0.5 * total, tol, "at point {i}");
        if case.chx.r_hyd == 0. && case.regen.r_hyd == 0. && case.hhx.r_hyd == 0. {
            must!(v.P_c[i] == v.P[i] && v.P_e[i] == v.P[i], "space pressures differ without any resistance");
            obs.label("no resistance");
        }
    }
    for (s, name) in seen.iter().zip(["chx", "regen", "hhx"]) {
        if *s {
            obs.label(format!("drop in {name}"));
            obs.nontrivial();
        }
    }
    Ok(())
}

fn runs(case: &EngineCase, obs: &mut Obs) -> Verdict {
    let Ok(e) = case.run() else {
        obs.label("not converged");
        return Ok(());
    };
    case.labels(obs);
    drops(e, case, obs)
}

fn synthetic(input: &(EngineCase, Vec<f64>), obs: &mut Obs) -> Verdict {
    let (case, x) = input;
    let Ok(mut e) = case.run() else {
        obs.label("not converged");
        return Ok(());
    };
    let n = e.values.time.len();
    let mut k = 0;
    let mut next = || {
        k += 1;
        (x[k % x.len()] * 7919. + k as f64 * 0.618_033_988_749).fract()
    };
    let flow = case.cap() / 5000.;
    let v = &mut e.values;
    v.P = (0..n).map(|_| case.p0 * (0.3 + 2. * next())).collect();
    for m in [&mut v.m_dot_ck, &mut v.m_dot_kr, &mut v.m_dot_rl, &mut v.m_dot_le] {
        *m = (0..n).map(|_| flow * (2. * next() - 1.)).collect();
    }
    drops(e, case, obs)
}

/// Hydraulic resistances and parasitics don't feed back on the cycle
fn lossless(input: &(EngineCase, [f64; 3], [f64; 8]), obs: &mut Obs) -> Verdict {
    let (case, r, w) = input;
    let a = case.run();
    let scale = case.p0 / (case.drive.scan().1 * case.drive.frequency());
    let power = case.p0 * case.drive.scan().1 * case.drive.frequency();
    let mut other = case.clone();
    other.chx.r_hyd = r[0] * scale;
    other.regen.r_hyd = r[1] * scale;
    other.hhx.r_hyd = r[2] * scale;
    let b = other.run();
    other.w_c = w[0] * power;
    other.w_e = w[1] * power;
    other.q_e = w[2] * power;
    other.chx.w = w[3] * power;
    other.hhx.w = w[4] * power;
    other.hhx.q = w[5] * power;
    other.regen.q = w[6] * power;
    let c = other.run();
    match (a, b, c) {
        (Ok(a), Ok(b), Ok(c)) => {
            obs.nontrivial();
            case.labels(obs);
            must!(fingerprint(&a) == fingerprint(&b), "hydraulic resistances change the cycle");
            must!(fingerprint(&a) == fingerprint(&c), "parasitics change the cycle");
            let (a, b) = (RunResults::from(a), RunResults::from(b));
            must!(
                a.power.ideal_indicated == b.power.ideal_indicated && a.heat_flow.input == b.heat_flow.input,
                "hydraulic resistances change the ideal power or the heat input"
            );
        }
        (Err(a), Err(b), Err(c)) => {
            obs.label("not converged");
            must!(
                error_name(&a) == error_name(&b) && error_name(&a) == error_name(&c),
                "losses change the error of the run"
            );
        }
        _ => return Err("an engine only converges with one of two sets of losses".into()),
    }
    Ok(())
}

fn main() {
    let opts = |res: Res| Opts { res, acc: Acc::Any, ..Opts::default() };
    Check::new(
        "C12",
        "Random engines with random hydraulic resistances. Non-trivial: the run converges with a pressure drop above 1e-9 of the pressure in at least one exchanger; in leg lossless: all runs converge.",
    )
    .leg("runs", 1500, 40000, move || engine(opts(Res::Small)), runs)
    .leg(
        "synthetic",
        2500,
        60000,
        move || {
            (engine(Opts { cond: false, ..opts(Res::Small) }), prop::collection::vec(0f64..1., 4..60))
                .prop_map(|(mut c, x)| {
                    c.set.inner = (1., 1e-2);
                    c.set.ode = (1e-5, 1e-5);
                    c.set.max_inner = 60;
                    c.set.max_outer = 60;
                    (c, x)
                })
                .boxed()
        },
        synthetic,
    )
    .leg(
        "lossless",
        1000,
        25000,
        move || {
            let r = || zlg(3, 1e-3, 1e2);
            let w = || zlg(3, 1e-3, 1e1);
            (engine(opts(Res::Small)), [r(), r(), r()], [w(), w(), w(), w(), w(), w(), w(), w()]).boxed()
        },
        lossless,
    )
    .run()
}
