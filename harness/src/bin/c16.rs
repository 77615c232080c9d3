//! C16: enthalpy equals internal energy plus pressure over density
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use settlab::case::*;
use settlab::rt::*;
use sett_rs::fluid::{Fluid, IdealGas};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    hydrogen: bool,
    t: f64,
    p: f64,
}

fn identity(c: &Case, obs: &mut Obs) -> Verdict {
    let f = if c.hydrogen { IdealGas::hydrogen() } else { IdealGas::helium() };
    obs.nontrivial();
    let (d, u, h) = (f.dens(c.t, c.p), f.inte(c.t, c.p), f.enth(c.t, c.p));
    let pv = c.p / d;
    let off = h - u - pv;
    let eps = 1e-13 * (h.abs() + u.abs() + pv);
    obs.max("h - u - P/rho relative to P/rho", off.abs() / pv);
    if off.abs() > eps {
        let name = if c.hydrogen { "hydrogen" } else { "helium" };
        let msg = format!("{name} at {} K, {} Pa: h - u - P/rho is {off:e} J/kg", c.t, c.p);
        // The constant by which the reference states of the energy and the enthalpy differ
        let r = pv / c.t;
        if (off + 250. * r).abs() <= eps {
            obs.finding(&format!("{name}-reference-state"), msg);
        } else {
            return Err(msg);
        }
    }
    Ok(())
}

fn main() {
    let gen = || {
        let t = prop_oneof![4 => 20f64..3000., 1 => lg(1e-2, 1e5)];
        (any::<bool>(), t, prop_oneof![3 => lg(1e5, 1e8), 1 => lg(1e-3, 1e12)])
            .prop_map(|(hydrogen, t, p)| Case { hydrogen, t, p })
            .boxed()
    };
    Check::new("C16", "Random temperatures and pressures for both gases; every case is non-trivial.")
        .leg("identity", 1_000_000, 40_000_000, gen, identity)
        .run()
}
