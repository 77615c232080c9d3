//! C05: working spaces exchange heat with their exchanger through the resistance
use settlab::case::*;
use settlab::pairs::*;
use settlab::phys::*;
use settlab::rt::*;
use settlab::{must, near};
use sett_rs::api::RunResults;

/// The heat that the ledgers of both spaces imply against the temperature difference
fn rate(case: &EngineCase, obs: &mut Obs) -> Verdict {
    let Ok(e) = case.run() else {
        obs.label("not converged");
        return Ok(());
    };
    case.labels(obs);
    let m = Model::of_engine(&e);
    let c = Cyc::of(&e);
    let r: Vec<Rates> = (0..c.len()).map(|i| Rates::at(&m, &c, i)).collect();
    let scale = r.iter().map(|r| r.scale(&m)).fold(0., f64::max);
    let (rc, re) = (case.r_c, case.r_e);
    let mut significant = false;
    for (i, x) in r.iter().enumerate() {
        let s = x.stored(&m);
        let h_ck = if x.m[0] >= 0. { x.c.h } else { x.k.h };
        let h_le = if x.m[3] >= 0. { x.l.h } else { x.e.h };
        let qc = -s[0] - x.m[0] * h_ck - x.p * x.dvc;
        let qe = -s[4] + x.m[3] * h_le - x.p * x.dve;
        let want_c = rc.map_or(0., |r| (c.tc[i] - m.t.k) / r);
        let want_e = re.map_or(0., |r| (c.te[i] - m.t.l) / r);
        let tol = 1e-9 * scale;
        near!(obs, "heat from the compression space", qc, want_c, tol, "at point {i}");
        near!(obs, "heat from the expansion space", qe, want_e, tol, "at point {i}");
        if want_c.abs() > 1e-4 * scale || want_e.abs() > 1e-4 * scale {
            significant = true;
        }
    }
    if significant {
        obs.nontrivial();
    }
    // Totals
    let mean_of = |f: &dyn Fn(usize) -> f64| {
        let y: Vec<f64> = (0..c.len()).map(f).collect();
        mean(c.t, &y)
    };
    let qc = mean_of(&|i| rc.map_or(0., |r| (c.tc[i] - m.t.k) / r));
    let qe = mean_of(&|i| re.map_or(0., |r| (c.te[i] - m.t.l) / r));
    let (qk, ql) = (mean(c.t, c.qk), mean(c.t, c.ql));
    let size = c.max_heat() + qc.abs() + qe.abs();
    let tol = 1e-9 * size;
    near!(obs, "cold exchanger total", e.state.heat_flow.chx, qk + qc, tol, "");
    near!(obs, "hot exchanger total", e.state.heat_flow.hhx, ql - qe, tol, "");
    let (chx, hhx) = (e.state.heat_flow.chx, e.state.heat_flow.hhx);
    drop(m);
    let res = RunResults::from(e);
    let ext = case.hhx.q + case.regen.q + case.q_e;
    let drops = res.power.ideal_indicated - res.power.indicated;
    let tol = 1e-9 * (size + ext + drops.abs() + case.w_c + case.w_e);
    near!(obs, "heat input", res.heat_flow.input, hhx + ext, tol, "");
    near!(
        obs,
        "heat rejection",
        res.heat_flow.rejection,
        chx + drops + case.w_c + case.w_e + ext,
        tol,
        ""
    );
    Ok(())
}

/// Small resistances: the spaces approach their exchangers, the pressure the isothermal cycle
fn limit(input: &(EngineCase, f64), obs: &mut Obs) -> Verdict {
    let (case, g) = input;
    let mut case = case.clone();
    let r = 1. / (g * case.cap());
    let run = |r: f64, case: &mut EngineCase| {
        case.r_c = Some(r);
        case.r_e = Some(r);
        case.run()
    };
    let (Ok(a), Ok(b)) = (run(r, &mut case), run(r / 2., &mut case)) else {
        obs.label("not converged");
        return Ok(());
    };
    obs.nontrivial();
    case.labels(obs);
    let dev = |e: &Eng| {
        let t = e.state.temp;
        let d = |s: &[f64], t: f64| s.iter().fold(0f64, |a, b| a.max((b - t).abs())) / t;
        (d(&e.values.T_c, t.chx), d(&e.values.T_e, t.hhx))
    };
    let (ac, ae) = dev(&a);
    let (bc, be) = dev(&b);
    for (x, y, what) in [(ac, bc, "compression"), (ae, be, "expansion")] {
        must!(
            y <= 0.75 * x + 3e-3,
            "{what} space stays {y:e} (relative) away from its exchanger, {x:e} with twice the resistance"
        );
        must!(y < 0.3, "{what} space is {y:e} (relative) away from its exchanger");
    }
    if let FluidSpec::Helium | FluidSpec::Hydrogen = case.fluid {
        let t = b.state.temp;
        let v = &b.values;
        let sum = |time: f64| {
            let (vc, _, ve, _) = case.drive.volumes(time);
            (vc + case.chx.vol) / t.chx + case.regen.vol / t.regen.avg + (ve + case.hhx.vol) / t.hhx
        };
        let slack = 2. * (bc + be) + 1e-5;
        for i in 0..v.time.len() {
            let p = case.p0 * sum(0.) / sum(v.time[i]);
            near!(obs, "isothermal pressure", v.P[i], p, slack * p, "at point {i}");
        }
    }
    Ok(())
}

/// A resistance beyond all measure is no different from an infinite one
fn adiabatic(case: &EngineCase, obs: &mut Obs) -> Verdict {
    let mut case = case.clone();
    case.r_c = None;
    case.r_e = None;
    let a = case.run();
    case.r_c = Some(1e200);
    case.r_e = Some(1e200);
    let b = case.run();
    let (a, b) = match (a, b) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(_), Err(_)) => {
            obs.label("not converged");
            return Ok(());
        }
        _ => return Err("an adiabatic engine only converges with one of two kinds of insulation".into()),
    };
    obs.nontrivial();
    case.labels(obs);
    must!(a.values.time.len() == b.values.time.len(), "lengths differ");
    let c = Cyc::of(&a);
    let d = Cyc::of(&b);
    let flow = 1e-6 * c.max_flow();
    let heat = 1e-6 * c.max_heat();
    for i in 0..c.len() {
        near!(obs, "T_c", c.tc[i], d.tc[i], 1e-6 * c.tc[i], "at {i}");
        near!(obs, "T_e", c.te[i], d.te[i], 1e-6 * c.te[i], "at {i}");
        near!(obs, "P", c.p[i], d.p[i], 1e-6 * c.p[i], "at {i}");
        near!(obs, "m_ck", c.m[0][i], d.m[0][i], flow, "at {i}");
        near!(obs, "m_le", c.m[3][i], d.m[3][i], flow, "at {i}");
        near!(obs, "Q_k", c.qk[i], d.qk[i], heat, "at {i}");
        near!(obs, "Q_l", c.ql[i], d.ql[i], heat, "at {i}");
    }
    near!(obs, "chx", a.state.heat_flow.chx, b.state.heat_flow.chx, heat, "");
    near!(obs, "hhx", a.state.heat_flow.hhx, b.state.heat_flow.hhx, heat, "");
    let (a, b) = (RunResults::from(a), RunResults::from(b));
    let tol = heat + 1e-9 * a.heat_flow.input.abs();
    near!(obs, "input", a.heat_flow.input, b.heat_flow.input, tol, "");
    near!(obs, "rejection", a.heat_flow.rejection, b.heat_flow.rejection, tol, "");
    Ok(())
}

/// Large resistances are next to infinite ones, on either side
fn insulated(input: &(EngineCase, Option<f64>, Option<f64>), obs: &mut Obs) -> Verdict {
    let (case, x, y) = input;
    let cap = case.cap();
    let (mut a, mut b) = (case.clone(), case.clone());
    for (x, a, b) in [(x, &mut a.r_c, &mut b.r_c), (y, &mut a.r_e, &mut b.r_e)] {
        if let Some(x) = x {
            *a = None;
            *b = Some(x / cap);
        }
    }
    let (Ok(a), Ok(b)) = (a.run(), b.run()) else {
        obs.label("not converged");
        return Ok(());
    };
    let (a, b) = (Flat::of(case, a), Flat::of(case, b));
    if !a.regular || !b.regular {
        obs.label("not regular");
        return Ok(());
    }
    obs.nontrivial();
    case.labels(obs);
    a.agrees(&b, None, 1e-5, 5e-6, true, obs)
}

fn main() {
    use proptest::prelude::*;
    let any = Opts { res: Res::Small, ..Opts::default() };
    let iso = Opts { res: Res::Small, cond: false, walls: false, losses: false, ..Opts::default() };
    Check::new(
        "C05",
        "Random engines. Non-trivial in leg rate: the run converges and the wall heat flow reaches 1e-4 of the terms of the energy balances; in the other legs: both runs converge.",
    )
    .leg("rate", 1200, 40000, move || engine(any), rate)
    .leg("limit", 300, 8000, move || (engine(iso), lg(60., 300.)).boxed(), limit)
    .leg(
        "insulated",
        300,
        10000,
        move || {
            let r = || prop_oneof![1 => lg(1e8, 1e20), 1 => lg(1e8, 1e300)];
            let pair = prop_oneof![
                2 => (r(), r()).prop_map(|(x, y)| (Some(x), Some(y))),
                1 => r().prop_map(|x| (Some(x), None)),
                1 => r().prop_map(|x| (None, Some(x))),
            ];
            (engine(Opts { walls: true, losses: true, ..iso }), pair)
                .prop_map(|(mut e, (x, y))| {
                    e.set = Settings::precise(e.set.resolution);
                    (e, x, y)
                })
                .boxed()
        },
        insulated,
    )
    .leg("adiabatic", 400, 10000, move || engine(iso), adiabatic)
    .run()
}
