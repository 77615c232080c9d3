//! C10: reported summaries agree with the reported time series
use proptest::prelude::*;
use settlab::case::*;
use settlab::phys::*;
use settlab::rt::*;
use settlab::{must, near};
use sett_rs::api::RunResults;

fn summaries(case: &EngineCase, obs: &mut Obs) -> Verdict {
    let Ok(e) = case.run() else {
        obs.label("not converged");
        return Ok(());
    };
    case.labels(obs);
    obs.nontrivial();
    if !case.all_fixed() {
        obs.label("several outer iterations");
    }
    let state = (e.state.pres, e.state.mass_flow, e.state.heat_flow);
    let (res_c, res_e, t) = (case.r_c, case.r_e, e.state.temp);
    let r = RunResults::from(e);
    let v = &r.values;
    // Averages of what the results report
    let fold = |f: fn(f64, f64) -> f64, s: f64| v.P.iter().copied().fold(s, f);
    let (max, min) = (fold(f64::max, f64::MIN), fold(f64::min, f64::MAX));
    for (what, p) in [
        ("results", [r.pressure.avg, r.pressure.max, r.pressure.min, r.pressure.t_zero]),
        ("state", [state.0.avg, state.0.max, state.0.min, state.0.t_zero]),
    ] {
        near!(obs, "average pressure", p[0], mean(&v.time, &v.P), 1e-12 * max, "in the {what}");
        must!(p[1] == max, "maximum pressure {:e} in the {what} isn't {max:e}", p[1]);
        must!(p[2] == min, "minimum pressure {:e} in the {what} isn't {min:e}", p[2]);
        must!(p[3] == v.P[0], "initial pressure {:e} in the {what} isn't {:e}", p[3], v.P[0]);
    }
    let flow = |a: &[f64], b: &[f64]| {
        let y: Vec<f64> = a.iter().zip(b).map(|(a, b)| ((a + b) * 0.5).abs()).collect();
        (mean(&v.time, &y), max_abs(a).max(max_abs(b)))
    };
    let flows = [
        flow(&v.m_dot_ck, &v.m_dot_kr),
        flow(&v.m_dot_kr, &v.m_dot_rl),
        flow(&v.m_dot_rl, &v.m_dot_le),
    ];
    let got = [
        ("results", [r.mass_flow.chx, r.mass_flow.regen, r.mass_flow.hhx]),
        ("state", [state.1.chx, state.1.regen, state.1.hhx]),
    ];
    for (what, m) in got {
        for (i, name) in ["chx", "regen", "hhx"].iter().enumerate() {
            let (want, scale) = flows[i];
            near!(obs, "mass flow", m[i], want, 1e-12 * scale, "of {name} in the {what}");
        }
    }
    let wall = |s: &[f64], t: f64, r: Option<f64>| {
        let y: Vec<f64> = s.iter().map(|x| r.map_or(0., |r| (x - t) / r)).collect();
        (mean(&v.time, &y), max_abs(&y))
    };
    let (qc, sc) = wall(&v.T_c, t.chx, res_c);
    let (qe, se) = wall(&v.T_e, t.hhx, res_e);
    let want = [
        (mean(&v.time, &v.Q_dot_k) + qc, max_abs(&v.Q_dot_k) + sc),
        (mean(&v.time, &v.Q_dot_r), max_abs(&v.Q_dot_r)),
        (mean(&v.time, &v.Q_dot_l) - qe, max_abs(&v.Q_dot_l) + se),
    ];
    for (what, q) in [
        ("results", [r.heat_flow.chx, r.heat_flow.regen, r.heat_flow.hhx]),
        ("state", [state.2.chx, state.2.regen, state.2.hhx]),
    ] {
        for (i, name) in ["chx", "regen", "hhx"].iter().enumerate() {
            let (want, scale) = want[i];
            near!(obs, "heat flow", q[i], want, 1e-12 * scale, "of {name} in the {what}");
        }
    }
    Ok(())
}

/// Every quantity of an engine, whatever its value, appears under its own name
fn mapping(input: &(EngineCase, Vec<f64>), obs: &mut Obs) -> Verdict {
    let (case, x) = input;
    let Ok(mut e) = case.run() else {
        obs.label("not converged");
        return Ok(());
    };
    case.labels(obs);
    obs.nontrivial();
    // Distinct values everywhere
    let mut k = 0;
    let mut next = || {
        k += 1;
        x[k % x.len()] + k as f64
    };
    let s = &mut e.state;
    for field in [
        &mut s.pres.avg,
        &mut s.pres.max,
        &mut s.pres.min,
        &mut s.pres.t_zero,
        &mut s.temp.sink,
        &mut s.temp.chx,
        &mut s.temp.regen.cold,
        &mut s.temp.regen.avg,
        &mut s.temp.regen.hot,
        &mut s.temp.hhx,
        &mut s.temp.source,
        &mut s.mass_flow.chx,
        &mut s.mass_flow.regen,
        &mut s.mass_flow.hhx,
        &mut s.heat_flow.chx,
        &mut s.heat_flow.regen,
        &mut s.heat_flow.hhx,
        &mut s.regen_imbalance.0,
    ] {
        *field = next();
    }
    let n = e.values.time.len();
    let v = &mut e.values;
    for series in [
        &mut v.P,
        &mut v.T_c,
        &mut v.T_e,
        &mut v.m_dot_ck,
        &mut v.m_dot_kr,
        &mut v.m_dot_rl,
        &mut v.m_dot_le,
        &mut v.Q_dot_k,
        &mut v.Q_dot_r,
        &mut v.Q_dot_l,
    ] {
        for y in series.iter_mut() {
            *y = next();
        }
    }
    let (st, v) = (&e.state, &e.values);
    let scalars = [
        st.pres.avg,
        st.pres.max,
        st.pres.min,
        st.pres.t_zero,
        st.temp.sink,
        st.temp.chx,
        st.temp.regen.cold,
        st.temp.regen.avg,
        st.temp.regen.hot,
        st.temp.hhx,
        st.temp.source,
        st.mass_flow.chx,
        st.mass_flow.regen,
        st.mass_flow.hhx,
        st.heat_flow.chx,
        st.heat_flow.regen,
        st.heat_flow.hhx,
        st.regen_imbalance.0,
    ];
    let series: Vec<Vec<f64>> = [
        &v.time, &v.P, &v.T_c, &v.T_e, &v.m_dot_ck, &v.m_dot_kr, &v.m_dot_rl, &v.m_dot_le, &v.Q_dot_k, &v.Q_dot_r,
        &v.Q_dot_l,
    ]
    .iter()
    .map(|s| s.to_vec())
    .collect();
    let r = RunResults::from(e);
    let got = [
        ("pressure.avg", r.pressure.avg),
        ("pressure.max", r.pressure.max),
        ("pressure.min", r.pressure.min),
        ("pressure.t_zero", r.pressure.t_zero),
        ("temperature.sink", r.temperature.sink),
        ("temperature.chx", r.temperature.chx),
        ("temperature.regen_cold", r.temperature.regen_cold),
        ("temperature.regen_avg", r.temperature.regen_avg),
        ("temperature.regen_hot", r.temperature.regen_hot),
        ("temperature.hhx", r.temperature.hhx),
        ("temperature.source", r.temperature.source),
        ("mass_flow.chx", r.mass_flow.chx),
        ("mass_flow.regen", r.mass_flow.regen),
        ("mass_flow.hhx", r.mass_flow.hhx),
        ("heat_flow.chx", r.heat_flow.chx),
        ("heat_flow.regen", r.heat_flow.regen),
        ("heat_flow.hhx", r.heat_flow.hhx),
        ("regen_imbalance", r.regen_imbalance),
    ];
    for ((name, got), want) in got.iter().zip(scalars) {
        must!(*got == want, "{name} is {got:e} instead of {want:e}");
    }
    let v = &r.values;
    for ((name, got), want) in [
        ("time", &v.time),
        ("P", &v.P),
        ("T_c", &v.T_c),
        ("T_e", &v.T_e),
        ("m_dot_ck", &v.m_dot_ck),
        ("m_dot_kr", &v.m_dot_kr),
        ("m_dot_rl", &v.m_dot_rl),
        ("m_dot_le", &v.m_dot_le),
        ("Q_dot_k", &v.Q_dot_k),
        ("Q_dot_r", &v.Q_dot_r),
        ("Q_dot_l", &v.Q_dot_l),
    ]
    .iter()
    .zip(series)
    {
        must!(**got == want, "values.{name} isn't the series of the engine ({n} points)");
    }
    Ok(())
}

fn main() {
    let opts = |res: Res| Opts { res, acc: Acc::Any, ..Opts::default() };
    Check::new(
        "C10",
        "Random engines, settings and resolutions; in leg mapping every value of the converged engine is replaced by a random one before it is turned into results. Non-trivial when the run converges.",
    )
    .leg("small", 1500, 40000, move || engine(opts(Res::Small)), summaries)
    .leg("any", 800, 30000, move || engine(opts(Res::Any)), summaries)
    .leg(
        "many",
        24,
        1000,
        move || {
            (engine(Opts { cond: false, ..opts(Res::Small) }), prop_oneof![2 => 1500u32..8000, 1 => 8000u32..80_000])
                .prop_map(|(mut c, n)| {
                    c.set.resolution = n;
                    c
                })
                .boxed()
        },
        summaries,
    )
    .leg(
        "mapping",
        1500,
        20000,
        move || (engine(Opts { cond: false, ..opts(Res::Small) }), prop::collection::vec(0f64..0.9, 7..40)).boxed(),
        mapping,
    )
    .run()
}
