//! C02: energy of the whole gas is conserved over the cycle
use settlab::case::*;
use settlab::near;
use settlab::phys::*;
use settlab::rt::*;

/// Rate of change of the energy of all gas against heat and work, at every reported time
fn instant(case: &EngineCase, obs: &mut Obs) -> Verdict {
    let Ok(e) = case.run() else {
        obs.label("not converged");
        return Ok(());
    };
    case.labels(obs);
    obs.nontrivial();
    let m = Model::of_engine(&e);
    let c = Cyc::of(&e);
    let r: Vec<Rates> = (0..c.len()).map(|i| Rates::at(&m, &c, i)).collect();
    let scale = r.iter().map(|r| r.scale(&m)).fold(0., f64::max);
    for (i, r) in r.iter().enumerate() {
        let stored: f64 = r.stored(&m).iter().sum();
        let supplied = r.ql - r.qk - r.qr - r.qc - r.qe - r.p * (r.dvc + r.dve);
        near!(obs, "energy of the gas", stored, supplied, 1e-9 * scale, "at point {i} of {}", c.len());
    }
    Ok(())
}

/// Energy at the reported states against integrated heat and work
fn history(case: &EngineCase, obs: &mut Obs) -> Verdict {
    let Ok(e) = case.run() else {
        obs.label("not converged");
        return Ok(());
    };
    if !case.fluid.is_consistent() {
        // The energy of hydrogen isn't the integral of its derivatives (finding of C15)
        obs.label("skipped: hydrogen");
        return Ok(());
    }
    if !case.regular(&e) {
        obs.label("skipped: irregular");
        return Ok(());
    }
    case.labels(obs);
    obs.nontrivial();
    let m = Model::of_engine(&e);
    let c = Cyc::of(&e);
    let n = c.len();
    let power: Vec<f64> = (0..n)
        .map(|i| {
            let (_, dvc, _, dve) = (m.vol)(c.t[i]);
            c.ql[i] - c.qk[i] - c.qr[i] - m.wall_c(c.tc[i]) - m.wall_e(c.te[i]) - c.p[i] * (dvc + dve)
        })
        .collect();
    let size: f64 = (0..n)
        .map(|i| c.ql[i].abs() + c.qk[i].abs() + c.qr[i].abs())
        .fold(0., f64::max);
    let energy: Vec<f64> = (0..n)
        .map(|i| m.energies(c.t[i], c.p[i], c.tc[i], c.te[i]).iter().sum())
        .collect();
    let content = m.masses(c.t[0], c.p[0], c.tc[0], c.te[0]).iter().sum::<f64>()
        * m.fluid.cp(m.t.k.max(m.t.l), c.p[0])
        * m.t.k.max(m.t.l);
    let h = c.t[1] - c.t[0];
    let (mut total, mut slack) = (0., 0.);
    let mut i = 0;
    while i + 2 < n {
        let (a, b, d) = (power[i], power[i + 1], power[i + 2]);
        let simpson = h / 3. * (a + 4. * b + d);
        let trapz = h / 2. * (a + 2. * b + d);
        let tol = 3. * (simpson - trapz).abs() + 12. / n as f64 * h * size + 4e-6 * content;
        near!(obs, "energy over two intervals", energy[i + 2] - energy[i], simpson, tol, "from point {i} of {n}");
        total += simpson;
        slack += 1.0 * (simpson - trapz).abs();
        near!(
            obs,
            "energy since the start",
            energy[i + 2] - energy[0],
            total,
            slack + 12. / n as f64 * h * size + 2e-5 * content,
            "at point {} of {n}",
            i + 2
        );
        i += 2;
    }
    Ok(())
}

fn main() {
    let any = Opts { res: Res::Small, ..Opts::default() };
    let loose = Opts { acc: Acc::Any, res: Res::Any, ..Opts::default() };
    let fine = Opts { res: Res::Medium, hydrogen: false, ..Opts::default() };
    Check::new(
        "C02",
        "Random engines (dimensionless shapes scaled to SI). A case is non-trivial when the run converges, so that a reported cycle can be audited.",
    )
    .assume("Rates of change of energy use the derivatives that the fluid reports (checked by C15)")
    .assume("The accumulated ledger leaves out hydrogen, whose energy isn't the integral of its derivatives (known finding of C15)")
    .leg("instant", 1200, 40000, move || engine(any), instant)
    .leg("instant-any-settings", 800, 20000, move || engine(loose), instant)
    .leg("history", 700, 20000, move || engine(fine), history)
    .run()
}
