//! C01: mass of working gas is conserved over the whole cycle
use settlab::case::*;
use settlab::phys::*;
use settlab::rt::*;
use settlab::{must, near};

/// Flows against rates of storage at every reported time
fn instant(case: &EngineCase, obs: &mut Obs) -> Verdict {
    let Ok(e) = case.run() else {
        obs.label("not converged");
        return Ok(());
    };
    case.labels(obs);
    obs.nontrivial();
    let m = Model::of_engine(&e);
    let c = Cyc::of(&e);
    let scale = c.max_flow();
    let fl = m.fluid;
    for i in 0..c.len() {
        let (t, p, tc, te) = (c.t[i], c.p[i], c.tc[i], c.te[i]);
        let f = [c.m[0][i], c.m[1][i], c.m[2][i], c.m[3][i]];
        let k = m.vk * fl.dd_dP_T(m.t.k, p);
        let r = m.vr * fl.dd_dP_T(m.t.r, p);
        let l = m.vl * fl.dd_dP_T(m.t.l, p);
        let dp = (f[0] - f[3]) / (k + r + l);
        let tol = 1e-9 * scale;
        near!(obs, "storage in the cold exchanger", f[0] - f[1], k * dp, tol, "at point {i}");
        near!(obs, "storage in the regenerator", f[1] - f[2], r * dp, tol, "at point {i}");
        near!(obs, "storage in the hot exchanger", f[2] - f[3], l * dp, tol, "at point {i}");
        // The rest of the balance: what the working spaces lose is what the flows carry away
        let s = m.solve(t, p, tc, te, Some((f[0] >= 0., f[3] >= 0.)));
        if s.consistent {
            // the solution depends on flow directions only through the gas that mixes in
            near!(obs, "flow from the compression space", f[0], s.m[0], 1e-6 * scale, "at point {i}");
            near!(obs, "flow into the expansion space", f[3], s.m[3], 1e-6 * scale, "at point {i}");
        } else {
            obs.label("ambiguous flow direction");
        }
    }
    Ok(())
}

/// Total mass and integrated flows over a finely reported cycle
fn history(case: &EngineCase, obs: &mut Obs) -> Verdict {
    let Ok(e) = case.run() else {
        obs.label("not converged");
        return Ok(());
    };
    if !case.regular(&e) {
        obs.label("skipped: irregular");
        return Ok(());
    }
    case.labels(obs);
    obs.nontrivial();
    let m = Model::of_engine(&e);
    let c = Cyc::of(&e);
    let masses: Vec<[f64; 5]> = (0..c.len())
        .map(|i| m.masses(c.t[i], c.p[i], c.tc[i], c.te[i]))
        .collect();
    let total = |i: usize| masses[i].iter().sum::<f64>();
    let t0 = total(0);
    must!(t0.is_finite() && t0 > 0., "the mass of gas is {t0}");
    for i in 0..c.len() {
        near!(obs, "total mass", total(i), t0, 2e-6 * t0, "at point {i} of {}", c.len());
    }
    // Change of mass of every volume over two intervals against Simpson's rule for the net flow
    let scale = c.max_flow();
    let h = c.t[1] - c.t[0];
    let mut i = 0;
    while i + 2 < c.len() {
        for v in 0..5 {
            let net = |j: usize| -> f64 {
                let inflow = if v == 0 { 0. } else { c.m[v - 1][j] };
                let outflow = if v == 4 { 0. } else { c.m[v][j] };
                inflow - outflow
            };
            let (a, b, d) = (net(i), net(i + 1), net(i + 2));
            let simpson = h / 3. * (a + 4. * b + d);
            let trapz = h / 2. * (a + 2. * b + d);
            let change = masses[i + 2][v] - masses[i][v];
            // a flow that reverses has a kink, where Simpson's rule is of second order only
            let tol = 3. * (simpson - trapz).abs() + 12. / c.len() as f64 * h * scale + 4e-6 * t0;
            near!(obs, "stored mass", change, simpson, tol, "volume {v} between points {i} and {}", i + 2);
        }
        i += 2;
    }
    Ok(())
}

fn main() {
    let any = Opts { res: Res::Small, ..Opts::default() };
    let loose = Opts { acc: Acc::Any, res: Res::Any, ..Opts::default() };
    let fine = Opts { res: Res::Medium, ..Opts::default() };
    Check::new(
        "C01",
        "Random engines (dimensionless shapes scaled to SI). A case is non-trivial when the run converges, so that a reported cycle can be audited.",
    )
    .assume("Fluid derivatives with pressure and temperature are those the fluid reports (checked by C15)")
    .leg("instant", 1200, 40000, move || engine(any), instant)
    .leg("instant-any-settings", 800, 20000, move || engine(loose), instant)
    .leg("history", 700, 20000, move || engine(fine), history)
    .run()
}
