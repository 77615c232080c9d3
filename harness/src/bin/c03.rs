//! C03: every volume's energy balance holds with the enthalpy of the upstream gas
use settlab::case::*;
use settlab::near;
use settlab::phys::*;
use settlab::rt::*;
use std::collections::BTreeSet;

fn balances(case: &EngineCase, obs: &mut Obs) -> Verdict {
    let Ok(e) = case.run() else {
        obs.label("not converged");
        return Ok(());
    };
    case.labels(obs);
    obs.nontrivial();
    let m = Model::of_engine(&e);
    let c = Cyc::of(&e);
    let r: Vec<Rates> = (0..c.len()).map(|i| Rates::at(&m, &c, i)).collect();
    let scale = r.iter().map(|r| r.scale(&m)).fold(0., f64::max);
    let mut seen = BTreeSet::new();
    for (i, r) in r.iter().enumerate() {
        let h_rc = m.fluid.enth(m.t.rc, r.p);
        let h_rh = m.fluid.enth(m.t.rh, r.p);
        let up = |f: f64, pos: f64, neg: f64| if f >= 0. { f * pos } else { f * neg };
        // energy carried from each volume to the next
        let x = [
            up(r.m[0], r.c.h, r.k.h),
            up(r.m[1], r.k.h, h_rc),
            up(r.m[2], h_rh, r.l.h),
            up(r.m[3], r.l.h, r.e.h),
        ];
        let dir: String = r.m.iter().map(|f| if *f >= 0. { '+' } else { '-' }).collect();
        seen.insert(dir.clone());
        let s = r.stored(&m);
        let want = [
            -x[0] - r.p * r.dvc - r.qc,
            x[0] - x[1] - r.qk,
            x[1] - x[2] - r.qr,
            x[2] - x[3] + r.ql,
            x[3] - r.p * r.dve - r.qe,
        ];
        let tol = 1e-9 * scale;
        near!(obs, "compression space", s[0], want[0], tol, "at point {i}, flows {dir}");
        near!(obs, "cold exchanger", s[1], want[1], tol, "at point {i}, flows {dir}");
        near!(obs, "regenerator", s[2], want[2], tol, "at point {i}, flows {dir}");
        near!(obs, "hot exchanger", s[3], want[3], tol, "at point {i}, flows {dir}");
        near!(obs, "expansion space", s[4], want[4], tol, "at point {i}, flows {dir}");
    }
    for dir in seen {
        obs.label(format!("flows {dir}"));
    }
    Ok(())
}

fn main() {
    let any = Opts { res: Res::Small, ..Opts::default() };
    let fine = Opts { res: Res::Medium, cond: false, ..Opts::default() };
    let loose = Opts { acc: Acc::Any, res: Res::Any, ..Opts::default() };
    Check::new(
        "C03",
        "Random engines (dimensionless shapes scaled to SI). A case is non-trivial when the run converges; labels count the combinations of flow directions that were audited.",
    )
    .assume("Rates of change of energy use the derivatives that the fluid reports (checked by C15)")
    .leg("balances", 1000, 40000, move || engine(any), balances)
    .leg("balances-fine", 500, 20000, move || engine(fine), balances)
    .leg("balances-any-settings", 800, 20000, move || engine(loose), balances)
    .run()
}
