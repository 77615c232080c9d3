//! C04: the results of an engine run satisfy the first law over the cycle
use settlab::case::*;
use settlab::near;
use settlab::phys::*;
use settlab::rt::*;
use sett_rs::api::RunResults;

fn first_law(case: &EngineCase, obs: &mut Obs) -> Verdict {
    let Ok(e) = case.run() else {
        obs.label("not converged");
        return Ok(());
    };
    if !case.fluid.is_consistent() {
        obs.label("skipped: hydrogen");
        return Ok(());
    }
    if !case.regular(&e) {
        obs.label("skipped: irregular");
        return Ok(());
    }
    case.labels(obs);
    let (change, slack, size) = {
        let m = Model::of_engine(&e);
        let c = Cyc::of(&e);
        let n = c.len();
        let energy = |i: usize| -> f64 { m.energies(c.t[i], c.p[i], c.tc[i], c.te[i]).iter().sum() };
        let qc: Vec<f64> = c.tc.iter().map(|t| m.wall_c(*t)).collect();
        let qe: Vec<f64> = c.te.iter().map(|t| m.wall_e(*t)).collect();
        let pdv: Vec<f64> = (0..n)
            .map(|i| {
                let (_, dvc, _, dve) = (m.vol)(c.t[i]);
                c.p[i] * (dvc + dve)
            })
            .collect();
        let series: [&[f64]; 6] = [c.qk, c.qr, c.ql, &qc, &qe, &pdv];
        let f = 1. / m.period;
        let mut slack = 0.;
        let mut size = 0f64;
        for s in series {
            slack += f * (trapz(c.t, s) - simpson(c.t, s)).abs();
            size = size.max(max_abs(s));
        }
        let content = m.masses(c.t[0], c.p[0], c.tc[0], c.te[0]).iter().sum::<f64>()
            * m.fluid.cp(m.t.k.max(m.t.l), c.p[0])
            * m.t.k.max(m.t.l);
        let n = n as f64;
        (
            f * (energy(c.len() - 1) - energy(0)),
            3. * slack + 30. / (n * n) * size + 3e-6 * content * f,
            size,
        )
    };
    let (chx, regen, hhx) = (e.state.heat_flow.chx, e.state.heat_flow.regen, e.state.heat_flow.hhx);
    let r = RunResults::from(e);
    let lost = case.w_c + case.w_e + case.q_e + case.hhx.q + case.regen.q;
    let ulp = 1e-9 * (lost + size + (r.power.indicated - r.power.ideal_indicated).abs());
    if r.power.ideal_indicated.abs() > 20. * slack {
        obs.nontrivial();
    }
    near!(
        obs,
        "heat input less rejection",
        r.heat_flow.input - r.heat_flow.rejection,
        r.power.shaft + r.heat_flow.regen + change,
        slack + ulp,
        "(ideal power {:e}, stored {change:e})",
        r.power.ideal_indicated
    );
    near!(
        obs,
        "exchanger heat",
        hhx - chx - regen,
        r.power.ideal_indicated + change,
        slack + ulp,
        "(stored {change:e})"
    );
    near!(obs, "cold heat flow in results", r.heat_flow.chx, chx, 0., "");
    near!(obs, "hot heat flow in results", r.heat_flow.hhx, hhx, 0., "");
    near!(obs, "regenerator heat flow in results", r.heat_flow.regen, regen, 0., "");
    Ok(())
}

fn main() {
    let fine = Opts { res: Res::Exactly(801), hydrogen: false, ..Opts::default() };
    let loose = Opts { res: Res::Exactly(401), hydrogen: false, acc: Acc::Any, ..Opts::default() };
    let loose_check = |case: &EngineCase, obs: &mut Obs| -> Verdict {
        let mut case = case.clone();
        // whatever the loops tolerate, but an accurate integration
        case.set.ode = (1e-8, 1e-8);
        first_law(&case, obs)
    };
    Check::new(
        "C04",
        "Random engines with parasitics and hydraulic resistances. A case is non-trivial when the run converges and its ideal power is at least 20 times the slack of the comparison.",
    )
    .assume("Fluids whose energy and enthalpy are consistent: helium and a virial gas, not hydrogen (known finding of C15)")
    .leg("first-law", 1200, 40000, move || engine(fine), first_law)
    .leg("first-law-loose", 600, 20000, move || engine(loose), loose_check)
    .run()
}
