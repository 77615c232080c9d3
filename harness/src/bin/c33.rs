//! C33: an engine state follows from the cycle, the approaches and the regenerator's imbalance
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use settlab::case::*;
use settlab::parts::*;
use settlab::phys::*;
use settlab::rt::*;
use settlab::{must, near};
use sett_rs::fluid::Fluid;
use sett_rs::types::ConvergenceTolerance;
use sett_rs::Components;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    engine: EngineCase,
    /// Approaches of the cold exchanger, the regenerator and the hot exchanger
    approach: [f64; 3],
    imbalance: f64,
    tol: (f64, f64),
    /// Old temperatures are off by these multiples of what is tolerated
    off: [f64; 5],
    points: usize,
    x: Vec<f64>,
}

/// Ends and average of a regenerator
fn layout(k: f64, l: f64, approach: f64, imbalance: f64) -> [f64; 3] {
    let cold = if imbalance < 0. { approach - imbalance } else { approach };
    let hot = if imbalance > 0. { approach + imbalance } else { approach };
    [k + cold, log_mean(l - 0.5 * hot, k + 0.5 * cold), l - hot]
}

fn update(c: &Case, obs: &mut Obs) -> Verdict {
    let case = &c.engine;
    let hx = |i: usize, s: &HxSpec| {
        let a = c.approach[i];
        Hx::new(s.vol, s.r_hyd, s.fixed(), move |_| a)
    };
    let first = |s: &HxSpec| {
        let a = s.fixed();
        Hx::new(s.vol, s.r_hyd, a, move |_| a)
    };
    let run = case.run_with(Components {
        ws: case.ws(),
        chx: Box::new(first(&case.chx)),
        regen: Box::new(first(&case.regen)),
        hhx: Box::new(first(&case.hhx)),
    });
    let Ok(e) = run else {
        obs.label("not converged");
        return Ok(());
    };
    let (mut state, mut v) = (e.state, e.values);
    must!(state.regen_imbalance.0 == 0., "the regenerator of a run has an imbalance of {}", state.regen_imbalance.0);
    // Any series on the time grid of a cycle
    let n = c.points;
    let mut i = 0;
    let mut next = || {
        i += 1;
        (c.x[i % c.x.len()] * 7919. + i as f64 * 0.618_033_988_749).fract()
    };
    let period = 1. / case.drive.frequency();
    v.time = (0..n).map(|i| i as f64 * period / (n - 1) as f64).collect();
    let cap = case.cap();
    let flow = cap / 5000.;
    let mut fill = |lo: f64, hi: f64| -> Vec<f64> { (0..n).map(|_| lo + (hi - lo) * next()).collect() };
    v.P = fill(0.3 * case.p0, 3. * case.p0);
    v.T_c = fill(100., 900.);
    v.T_e = fill(100., 900.);
    for m in [&mut v.m_dot_ck, &mut v.m_dot_kr, &mut v.m_dot_rl, &mut v.m_dot_le] {
        *m = fill(-flow, 0.7 * flow);
    }
    for q in [&mut v.Q_dot_k, &mut v.Q_dot_r, &mut v.Q_dot_l] {
        *q = fill(-300. * cap, 500. * cap);
    }
    // Temperatures that the approaches lead to, and those that the state has instead
    let [ak, ar, al] = c.approach;
    let (k, l) = (case.t_sink + ak, case.t_source - al);
    let [rc, r, rh] = layout(k, l, ar, c.imbalance);
    let new = [k, rc, r, rh, l];
    let (abs, rel) = c.tol;
    let mut old = new;
    for ((t, n), off) in old.iter_mut().zip(new).zip(c.off) {
        *t = n + off * abs.min(rel * n.abs());
    }
    if !new.iter().chain(&old).all(|t| t.is_finite()) {
        obs.label("no average of the regenerator");
        return Ok(());
    }
    state.temp.sink = case.t_sink;
    state.temp.source = case.t_source;
    state.temp.chx = old[0];
    state.temp.regen.cold = old[1];
    state.temp.regen.avg = old[2];
    state.temp.regen.hot = old[3];
    state.temp.hhx = old[4];
    state.regen_imbalance.0 = c.imbalance;
    // Marks, which have to be replaced
    state.pres.avg = 1.;
    state.pres.t_zero = 2.;
    state.mass_flow.regen = -3.;
    state.heat_flow.chx = 4.;
    let at = state.regen_imbalance.regen_temp(k, l, ar);
    let size = k.abs() + l.abs() + ar.abs() + c.imbalance.abs();
    near!(obs, "regenerator", at.cold, rc, 1e-13 * size, "cold end of a regenerator with an imbalance of {}", c.imbalance);
    near!(obs, "regenerator", at.hot, rh, 1e-13 * size, "hot end of a regenerator with an imbalance of {}", c.imbalance);
    near!(obs, "regenerator average", at.avg, r, 1e-9 * size, "average of a regenerator with an imbalance of {}", c.imbalance);

    let chx = hx(0, &case.chx);
    let regen = hx(1, &case.regen);
    let hhx = hx(2, &case.hhx);
    let logs = [chx.log.clone(), regen.log.clone(), hhx.log.clone()];
    let parts = Components { ws: case.ws(), chx: Box::new(chx), regen: Box::new(regen), hhx: Box::new(hhx) };
    let result = state.update(&parts, &v, ConvergenceTolerance { abs, rel });
    let fluid = case.fluid.make();

    // Averages of the series
    let flat = |f: &dyn Fn(usize) -> f64| -> (f64, f64) {
        let y: Vec<f64> = (0..n).map(f).collect();
        (mean(&v.time, &y), max_abs(&y))
    };
    let wall = |r: Option<f64>, t: &[f64], w: f64| match r {
        Some(r) => {
            let (m, s) = flat(&|i| (t[i] - w) / r);
            (m, s + 2000. / r)
        }
        None => (0., 0.),
    };
    let p = flat(&|i| v.P[i]);
    let m = [
        flat(&|i| (0.5 * (v.m_dot_ck[i] + v.m_dot_kr[i])).abs()),
        flat(&|i| (0.5 * (v.m_dot_kr[i] + v.m_dot_rl[i])).abs()),
        flat(&|i| (0.5 * (v.m_dot_rl[i] + v.m_dot_le[i])).abs()),
    ];
    let (qc, qe) = (wall(case.r_c, &v.T_c, old[0]), wall(case.r_e, &v.T_e, old[4]));
    let (qk, qr, ql) = (flat(&|i| v.Q_dot_k[i]), flat(&|i| v.Q_dot_r[i]), flat(&|i| v.Q_dot_l[i]));
    let q = [(qk.0 + qc.0, qk.1 + qc.1), qr, (ql.0 - qe.0, ql.1 + qe.1)];

    // Each exchanger is asked once about the new averages at the old temperatures
    for (name, log, t, i, a, b) in [
        ("cold exchanger", &logs[0], old[0], 0, case.t_sink, f64::NAN),
        ("regenerator", &logs[1], old[2], 1, old[0], old[4]),
        ("hot exchanger", &logs[2], old[4], 2, case.t_source, f64::NAN),
    ] {
        let log = log.borrow();
        let asked: Vec<_> = log.iter().filter(|(what, _)| *what == What::Approach).collect();
        must!(!asked.is_empty(), "the {name} isn't asked for its approach");
        for (_, s) in asked {
            let h = &s.hxr;
            must!(h.temp == t, "{name} is shown its temperature as {:e} instead of {t:e}", h.temp);
            must!(s.a == a && (s.b == b || b.is_nan()), "{name} is shown {:e} and {:e} around it instead of {a:e} and {b:e}", s.a, s.b);
            near!(obs, "pressure", h.pres, p.0, 1e-12 * p.1, "shown to the {name}");
            near!(obs, "mass flow", h.m_dot, m[i].0, 1e-12 * m[i].1.max(flow), "shown to the {name}");
            near!(obs, "heat flow", h.Q_dot, q[i].0, 1e-12 * q[i].1, "shown to the {name}");
            near!(obs, "density", h.dens, fluid.dens(t, p.0), 1e-11 * fluid.dens(t, p.0).abs(), "shown to the {name}");
            near!(obs, "heat capacity", h.cp, fluid.cp(t, p.0), 1e-10 * fluid.cp(t, p.0).abs(), "shown to the {name}");
        }
    }

    // Temperatures settle when all of them change by less than both limits
    let (mut yes, mut no) = (true, false);
    for (t, n) in old.iter().zip(new) {
        let d = (n - t).abs();
        let error = 1e-9 * (abs.min(rel * t.abs())) + 5e-12 * size;
        yes &= d + error < abs && (d + error) < rel * t.abs();
        no |= d - error > abs || (d - error) > rel * t.abs();
    }
    let (settled, s) = match result {
        Ok(s) => (false, s),
        Err(s) => (true, s),
    };
    obs.nontrivial();
    obs.label(if settled { "settled" } else { "changed" });
    obs.label(if c.imbalance < 0. { "negative" } else if c.imbalance > 0. { "positive" } else { "balanced" });
    must!(!(settled && no), "temperatures {old:?} count as settled although they become {new:?} (tolerances {abs:e} and {rel:e})");
    must!(settled || !yes, "temperatures {old:?} don't count as settled although they become {new:?} (tolerances {abs:e} and {rel:e})");
    if !yes && !no {
        obs.label("too close to tell");
    }
    let t = s.temp;
    let got = [t.chx, t.regen.cold, t.regen.avg, t.regen.hot, t.hhx];
    for ((got, old), new) in got.into_iter().zip(old).zip(new) {
        if settled {
            must!(got == old, "a settled temperature {old:e} becomes {got:e}");
        } else {
            near!(obs, "new temperature", got, new, 1e-9 * size * if new == r { 1. } else { 1e-4 }, "from {old:e}");
        }
    }
    must!(t.sink == case.t_sink && t.source == case.t_source, "sink and source become {} and {}", t.sink, t.source);
    must!(s.regen_imbalance.0 == c.imbalance, "an imbalance of {} becomes {}", c.imbalance, s.regen_imbalance.0);
    near!(obs, "pressure", s.pres.avg, p.0, 1e-12 * p.1, "average");
    let (hi, lo) = (v.P.iter().copied().fold(f64::MIN, f64::max), v.P.iter().copied().fold(f64::MAX, f64::min));
    must!(s.pres.max == hi && s.pres.min == lo && s.pres.t_zero == v.P[0], "pressures {:?} don't match the series, which starts at {:e} and lies between {lo:e} and {hi:e}", s.pres, v.P[0]);
    for (i, (got_m, got_q)) in
        [(s.mass_flow.chx, s.heat_flow.chx), (s.mass_flow.regen, s.heat_flow.regen), (s.mass_flow.hhx, s.heat_flow.hhx)]
            .into_iter()
            .enumerate()
    {
        near!(obs, "mass flow", got_m, m[i].0, 1e-12 * m[i].1.max(flow), "of exchanger {i}");
        near!(obs, "heat flow", got_q, q[i].0, 1e-12 * q[i].1, "of exchanger {i}");
    }
    Ok(())
}

fn gen() -> BoxedStrategy<Case> {
    let o = Opts { cond: false, acc: Acc::Tight, res: Res::Exactly(5), ..Opts::default() };
    let part = || prop_oneof![1 => Just(0.), 4 => -0.3f64..0.3, 1 => prop_oneof![lg(1e-6, 0.1), lg(1e-6, 0.1).prop_map(|x| -x)]];
    let off = || {
        let one = prop_oneof![2 => Just(0.), 2 => -1f64..1., 1 => -1.5f64..1.5, 1 => prop_oneof![0.9f64..1.1, -1.1f64..-0.9]];
        let five = prop::array::uniform5(one);
        // One of them alone decides, or any
        prop_oneof![
            1 => Just([0.; 5]),
            2 => (0usize..5, prop_oneof![lg(0.5, 100.), lg(0.5, 100.).prop_map(|x| -x)]).prop_map(|(i, x)| {
                let mut off = [0.; 5];
                off[i] = x;
                off
            }),
            2 => (0usize..5, five.clone(), prop_oneof![lg(1.01, 10.), lg(1.01, 10.).prop_map(|x| -x)]).prop_map(|(i, mut off, x)| {
                off.iter_mut().for_each(|o| *o *= 0.6);
                off[i] = x;
                off
            }),
            2 => five,
        ]
    };
    (
        engine(o),
        [part(), part(), part()],
        prop_oneof![1 => Just(0.), 3 => -0.6f64..0.6, 1 => prop_oneof![lg(1e-9, 0.1), lg(1e-9, 0.1).prop_map(|x| -x)]],
        (lg(1e-6, 10.), lg(1e-9, 0.1)),
        off(),
        prop_oneof![4 => 2usize..40, 1 => 40usize..800],
        prop::collection::vec(0f64..1., 8..100),
    )
        .prop_map(|(mut engine, a, imbalance, tol, off, points, x)| {
            engine.set.inner = (1., 1e-2);
            engine.set.ode = (1e-5, 1e-5);
            let span = engine.t_source - engine.t_sink;
            Case { engine, approach: a.map(|a| a * span), imbalance: imbalance * span, tol, off, points, x }
        })
        .boxed()
}

fn main() {
    Check::new(
        "C33",
        "The state of a random engine with random temperatures, imbalance of the regenerator and exchangers of given approaches is updated from random series over a cycle; old temperatures that are off by none, a part or multiples of the tolerances. Non-trivial when there is a state to update.",
    )
    .assume("The cycle's points are equally spaced in time")
    .leg("update", 4000, 150_000, gen, update)
    .run()
}
