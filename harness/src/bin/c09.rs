//! C09: the cycle is reported on exactly the requested uniform time grid
use proptest::prelude::*;
use settlab::case::*;
use settlab::rt::*;
use settlab::{must, near};
use sett_rs::api::RunResults;

fn grid(case: &EngineCase, obs: &mut Obs) -> Verdict {
    let Ok(e) = case.run() else {
        obs.label("not converged");
        return Ok(());
    };
    case.labels(obs);
    let n = case.set.resolution as usize;
    obs.nontrivial();
    obs.label(match n {
        2 => "2 points",
        3..=20 => "up to 20 points",
        21..=300 => "up to 300 points",
        301..=5000 => "up to 5000 points",
        _ => "more than 5000 points",
    });
    let period = 1. / case.drive.frequency();
    let check = |name: &str, s: &[f64]| -> Verdict {
        must!(s.len() == n, "{name} has {} points instead of {n}", s.len());
        Ok(())
    };
    let v = &e.values;
    for (name, s) in [
        ("time", &v.time),
        ("P", &v.P),
        ("T_c", &v.T_c),
        ("T_e", &v.T_e),
        ("m_dot_ck", &v.m_dot_ck),
        ("m_dot_kr", &v.m_dot_kr),
        ("m_dot_rl", &v.m_dot_rl),
        ("m_dot_le", &v.m_dot_le),
        ("Q_dot_k", &v.Q_dot_k),
        ("Q_dot_r", &v.Q_dot_r),
        ("Q_dot_l", &v.Q_dot_l),
    ] {
        check(name, s)?;
    }
    must!(v.time[0] == 0., "the cycle starts at {:e}", v.time[0]);
    let step = period / (n - 1) as f64;
    // Accumulated rounding only
    let tol = period * f64::EPSILON * (n as f64 + 4.);
    for (i, t) in v.time.iter().enumerate() {
        near!(obs, "time", *t, i as f64 * step, tol, "at point {i} of {n}");
    }
    near!(obs, "end of the cycle", v.time[n - 1], period, tol, "");
    let r = RunResults::from(e);
    let v = &r.values;
    for (name, s) in [
        ("time", &v.time),
        ("P", &v.P),
        ("P_c", &v.P_c),
        ("P_e", &v.P_e),
        ("T_c", &v.T_c),
        ("T_e", &v.T_e),
        ("m_dot_ck", &v.m_dot_ck),
        ("m_dot_kr", &v.m_dot_kr),
        ("m_dot_rl", &v.m_dot_rl),
        ("m_dot_le", &v.m_dot_le),
        ("Q_dot_k", &v.Q_dot_k),
        ("Q_dot_r", &v.Q_dot_r),
        ("Q_dot_l", &v.Q_dot_l),
    ] {
        check(name, s)?;
    }
    for (i, t) in v.time.iter().enumerate() {
        near!(obs, "time in the results", *t, i as f64 * step, tol, "at point {i} of {n}");
    }
    Ok(())
}

fn main() {
    let opts = |res: Res| Opts { res, acc: Acc::Any, losses: false, ..Opts::default() };
    let many = |o: Opts, n: BoxedStrategy<u32>| {
        (engine(o), n)
            .prop_map(|(mut c, n)| {
                c.set.resolution = n;
                c.set.max_inner = 120;
                c.set.max_outer = 50;
                c
            })
            .boxed()
    };
    Check::new(
        "C09",
        "Random engines, settings and resolutions of 2 to 300 000 points; non-trivial when the run converges.",
    )
    .leg("few", 3000, 80000, move || many(opts(Res::Small), (2u32..70).boxed()), grid)
    .leg("any", 2000, 60000, move || many(opts(Res::Small), (2u32..1200).boxed()), grid)
    .leg("many", 300, 10000, move || many(Opts { cond: false, ..opts(Res::Small) }, (1000u32..5001).boxed()), grid)
    .leg(
        "most",
        24,
        600,
        move || {
            let o = Opts { cond: false, ..opts(Res::Small) };
            many(o, prop_oneof![2 => 5000u32..20_000, 2 => 20_000u32..70_000, 1 => 70_000u32..300_000].boxed())
        },
        grid,
    )
    .run()
}
