//! C11: power, torque, heat and efficiency follow their definitions
use std::f64::consts::PI;

use proptest::prelude::*;
use settlab::case::*;
use settlab::parts::*;
use settlab::phys::*;
use settlab::rt::*;
use settlab::near;
use sett_rs::api::RunResults;
use sett_rs::types::ParasiticPower;
use sett_rs::ws::Parasitics;
use sett_rs::Components;

struct Losses {
    w_c: f64,
    w_e: f64,
    w_k: f64,
    w_l: f64,
    /// Hot exchanger, regenerator and expansion space
    thermal: f64,
    /// Size of its terms
    size: f64,
}

fn definitions(e: Eng, case: &EngineCase, loss: &Losses, obs: &mut Obs) -> Verdict {
    let f = case.drive.frequency();
    let (t, v) = (e.state.temp, &e.values);
    let n = v.time.len();
    let series = |g: &dyn Fn(usize) -> f64| -> Vec<f64> { (0..n).map(g).collect() };
    // Average of a series over the cycle, and the size of its terms
    let cyc = |y: &[f64]| (f * trapz(&v.time, y), max_abs(y));
    let vol: Vec<_> = v.time.iter().map(|t| case.drive.volumes(*t)).collect();
    let fluid = case.fluid.make();
    use sett_rs::fluid::Fluid;
    let half_drop = series(&|i| {
        let at = |spec: &HxSpec, a: f64, b: f64, t: f64| spec.r_hyd * 0.5 * (a + b) / fluid.dens(t, v.P[i]);
        0.5 * (at(&case.chx, v.m_dot_ck[i], v.m_dot_kr[i], t.chx)
            + at(&case.regen, v.m_dot_kr[i], v.m_dot_rl[i], t.regen.avg)
            + at(&case.hhx, v.m_dot_rl[i], v.m_dot_le[i], t.hhx))
    });
    let (ideal, s1) = cyc(&series(&|i| v.P[i] * (vol[i].1 + vol[i].3)));
    let s1 = s1 + max_abs(&series(&|i| v.P[i] * (vol[i].1.abs() + vol[i].3.abs())));
    let (ind, s2) = cyc(&series(&|i| (v.P[i] + half_drop[i]) * vol[i].1 + (v.P[i] - half_drop[i]) * vol[i].3));
    let s2 = s1 + s2;
    let wall = |s: &[f64], t: f64, r: Option<f64>| {
        let y: Vec<f64> = s.iter().map(|x| r.map_or(0., |r| (x - t) / r)).collect();
        let mag = y.iter().chain(s.iter().filter(|_| r.is_some())).fold(0f64, |a, b| a.max(b.abs()));
        let scale = r.map_or(0., |r| (mag.max(t)) / r);
        (f * trapz(&v.time, &y), scale + max_abs(&y))
    };
    let (qc, sc) = wall(&v.T_c, t.chx, case.r_c);
    let (qe, se) = wall(&v.T_e, t.hhx, case.r_e);
    let (qk, sk) = cyc(&v.Q_dot_k);
    let (ql, sl) = cyc(&v.Q_dot_l);
    let shaft = ind - loss.w_c - loss.w_e;
    let net = shaft - loss.w_k - loss.w_l;
    let input = ql - qe + loss.thermal;
    let rejection = qk + qc + (ideal - ind) + loss.w_c + loss.w_e + loss.thermal;
    let r = RunResults::from(e);
    let w = s2 + loss.w_c.abs() + loss.w_e.abs() + loss.w_k.abs() + loss.w_l.abs();
    let tol = 1e-11;
    near!(obs, "ideal indicated power", r.power.ideal_indicated, ideal, tol * s1, "");
    near!(obs, "indicated power", r.power.indicated, ind, tol * s2, "");
    near!(obs, "shaft power", r.power.shaft, shaft, tol * w, "");
    near!(obs, "net power", r.power.net, net, tol * w, "");
    near!(obs, "torque", r.shaft_torque, shaft / (2. * PI * f), tol * w / f, "");
    let si = sl + se + loss.size;
    near!(obs, "heat input", r.heat_flow.input, input, tol * si, "");
    near!(obs, "heat rejection", r.heat_flow.rejection, rejection, tol * (sk + sc + w + loss.size), "");
    if input.abs() > 1e-6 * si {
        let eff = net / input;
        let slack = tol * (w / input.abs() + eff.abs() * si / input.abs());
        near!(obs, "efficiency", r.efficiency.mechanical, eff, slack, "");
    }
    Ok(())
}

fn runs(case: &EngineCase, obs: &mut Obs) -> Verdict {
    let Ok(e) = case.run() else {
        obs.label("not converged");
        return Ok(());
    };
    case.labels(obs);
    obs.nontrivial();
    let loss = Losses {
        w_c: case.w_c,
        w_e: case.w_e,
        w_k: case.chx.w,
        w_l: case.hhx.w,
        thermal: case.hhx.q + case.regen.q + case.q_e,
        size: case.hhx.q.abs() + case.regen.q.abs() + case.q_e.abs(),
    };
    definitions(e, case, &loss, obs)
}

/// Random series, components that also have electrical losses
fn synthetic(input: &(EngineCase, (usize, Vec<f64>), [f64; 5]), obs: &mut Obs) -> Verdict {
    let (case, (count, x), el) = input;
    let el = el.map(|x| x * case.p0 * case.drive.scan().1 * case.drive.frequency());
    let par = |mechanical: f64, thermal: f64, electrical: f64| ParasiticPower { thermal, mechanical, electrical };
    let hx = |s: &HxSpec, p: ParasiticPower| {
        let dt = s.fixed();
        let mut hx = Hx::new(s.vol, s.r_hyd, dt, move |_| dt);
        hx.par = p;
        hx
    };
    let parts = Components {
        ws: Box::new(FourierDrive {
            spec: case.drive.clone(),
            res: case.resistance(),
            parasitics: Parasitics { comp: par(case.w_c, 0., el[0]), exp: par(case.w_e, case.q_e, el[1]) },
        }),
        chx: Box::new(hx(&case.chx, par(case.chx.w, 0., el[2]))),
        regen: Box::new(hx(&case.regen, par(0., case.regen.q, el[3]))),
        hhx: Box::new(hx(&case.hhx, par(case.hhx.w, case.hhx.q, el[4]))),
    };
    let Ok(mut e) = case.run_with(parts) else {
        obs.label("not converged");
        return Ok(());
    };
    obs.nontrivial();
    // Series with unequal steps and any values
    let period = 1. / case.drive.frequency();
    let n = 2 + count / 8;
    let mut k = 0;
    let mut next = || {
        k += 1;
        (x[k % x.len()] * 7919. + k as f64 * 0.618_033_988_749).fract()
    };
    let steps: Vec<f64> = (1..n).map(|_| 0.05 + next()).collect();
    let total: f64 = steps.iter().sum();
    let mut time = vec![0.];
    for s in &steps {
        time.push(time.last().unwrap() + s / total * period);
    }
    *time.last_mut().unwrap() = period;
    let c = case.cap();
    let flow = c / 5000.;
    let v = &mut e.values;
    v.time = time;
    let mut fill = |lo: f64, hi: f64| -> Vec<f64> { (0..n).map(|_| lo + (hi - lo) * next()).collect() };
    v.P = fill(0.5 * case.p0, 2. * case.p0);
    v.T_c = fill(200., 900.);
    v.T_e = fill(200., 900.);
    for m in [&mut v.m_dot_ck, &mut v.m_dot_kr, &mut v.m_dot_rl, &mut v.m_dot_le] {
        *m = fill(-flow, flow);
    }
    for q in [&mut v.Q_dot_k, &mut v.Q_dot_r, &mut v.Q_dot_l] {
        *q = fill(-300. * c, 500. * c);
    }
    let loss = Losses {
        w_c: case.w_c,
        w_e: case.w_e,
        w_k: case.chx.w,
        w_l: case.hhx.w,
        thermal: case.hhx.q + case.regen.q + case.q_e,
        size: case.hhx.q.abs() + case.regen.q.abs() + case.q_e.abs(),
    };
    definitions(e, case, &loss, obs)
}

fn main() {
    let opts = |res: Res| Opts { res, acc: Acc::Any, ..Opts::default() };
    Check::new(
        "C11",
        "Random engines with parasitics and pressure drops; in leg synthetic the cycle is replaced by random series on an uneven time grid some of the losses are gains, and every component also has electrical losses. Non-trivial when the run converges.",
    )
    .leg("runs", 2500, 60000, move || engine(opts(Res::Small)), runs)
    .leg("runs-fine", 500, 15000, move || engine(opts(Res::Any)), runs)
    .leg(
        "synthetic",
        2500,
        60000,
        move || {
            let o = Opts { cond: false, acc: Acc::Tight, ..opts(Res::Exactly(5)) };
            let el = [0f64..0.3, 0f64..0.3, 0f64..0.3, 0f64..0.3, 0f64..0.3];
            // Some of the losses are gains
            let gain = [0u32..6, 0u32..6, 0u32..6, 0u32..6, 0u32..6, 0u32..6, 0u32..6];
            let count = prop_oneof![8 => 8usize..240, 1 => 800usize..40_000];
            let series = count.prop_flat_map(|n| prop::collection::vec(0f64..1., 8..240).prop_map(move |x| (n, x)));
            (engine(o), series, el, gain)
                .prop_map(|(mut c, x, el, gain)| {
                    let losses = [&mut c.w_c, &mut c.w_e, &mut c.q_e, &mut c.chx.w, &mut c.hhx.w, &mut c.regen.q, &mut c.hhx.q];
                    for (x, g) in losses.into_iter().zip(gain) {
                        *x *= if g == 0 { -1. } else { 1. };
                    }
                    c.set.inner = (1., 1e-2);
                    c.set.ode = (1e-5, 1e-5);
                    (c, x, el)
                })
                .boxed()
        },
        synthetic,
    )
    .run()
}
