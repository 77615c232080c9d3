//! C15: fluid property derivatives match the properties they differentiate
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use settlab::case::*;
use settlab::rt::*;
use settlab::{must, near};
use sett_rs::fluid::{Fluid, IdealGas};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    hydrogen: bool,
    t: f64,
    p: f64,
    p2: f64,
}

fn gen(lo: f64, hi: f64) -> BoxedStrategy<Case> {
    let p = || prop_oneof![3 => lg(1e5, 1e8), 1 => lg(1e0, 1e10)];
    (any::<bool>(), prop_oneof![4 => lo..hi, 1 => lg(lo, hi), 1 => (0u32..20).prop_map(move |i| lo + (hi - lo) * f64::from(i) / 20.)], p(), p())
        .prop_map(|(hydrogen, t, p, p2)| Case { hydrogen, t, p, p2 })
        .boxed()
}

fn fluid(c: &Case) -> IdealGas {
    if c.hydrogen {
        IdealGas::hydrogen()
    } else {
        IdealGas::helium()
    }
}

/// Richardson extrapolated central difference and an estimate of its error
fn slope(f: impl Fn(f64) -> f64, x: f64, h: f64) -> (f64, f64) {
    let d = |h: f64| (f(x + h) - f(x - h)) / (2. * h);
    let (a, b) = (d(h), d(2. * h));
    let value = (4. * a - b) / 3.;
    let size = f(x + h).abs() + f(x - h).abs();
    (value, (a - b).abs() * 1e-2 + size * 1e-14 / h)
}

const COEFS: [f64; 6] = [
    12471.4839,
    13.319_443_2,
    -3.477_828_06e-2,
    4.317_848_38e-5,
    -2.428_833_35e-8,
    5.142_898_38e-12,
];

/// The enthalpy of hydrogen as it is (a listed finding): (T - 250) times the mean of each term of cp over 0..T
fn listed(t: f64) -> f64 {
    let poly: f64 = COEFS.iter().enumerate().map(|(i, c)| c / (i + 1) as f64 * t.powi(i as i32)).sum();
    (t - 250.) * poly
}

fn derivatives(c: &Case, obs: &mut Obs) -> Verdict {
    let f = fluid(c);
    let (t, p) = (c.t, c.p);
    obs.nontrivial();
    obs.label(if c.hydrogen { "hydrogen" } else { "helium" });
    // Gas law with the constant of the gas: R = 8314.46 / molar mass
    let r = p / (f.dens(t, p) * t);
    let molar: f64 = if c.hydrogen { 2.01588 } else { 4.002602 };
    near!(obs, "gas constant", r, 8314.4626 / molar, 2e-3 * r, "");
    let r0 = 1e5 / (f.dens(300., 1e5) * 300.);
    near!(obs, "gas law", r, r0, 1e-13 * r0, "at {t} K and {p} Pa");
    // Density
    let (d, e) = slope(|p| f.dens(t, p), p, 1e-3 * p);
    near!(obs, "density over pressure", f.dd_dP_T(t, p), d, e + 1e-9 * d.abs(), "");
    let (d, e) = slope(|t| f.dens(t, p), t, 1e-3 * t);
    near!(obs, "density over temperature", f.dd_dT_P(t, p), d, e + 1e-9 * d.abs(), "");
    // Neither energy nor enthalpy nor the specific heat depend on pressure
    must!(f.enth(t, p) == f.enth(t, c.p2), "enthalpy depends on pressure");
    must!(f.inte(t, p) == f.inte(t, c.p2), "energy depends on pressure");
    must!(f.cp(t, p) == f.cp(t, c.p2), "specific heat depends on pressure");
    must!(f.du_dP_T(t, p) == 0., "energy is said to depend on pressure");
    // Temperature derivatives
    let cp = f.cp(t, p);
    let size = cp.abs() + r;
    let (dh, eh) = slope(|t| f.enth(t, p), t, 1e-3 * t);
    let (du, eu) = slope(|t| f.inte(t, p), t, 1e-3 * t);
    let ut = f.du_dT_P(t, p);
    near!(obs, "difference of specific heats", cp - ut, r, 1e-12 * size, "");
    let bad_h = (dh - cp).abs() > eh + 1e-8 * size;
    let bad_u = (du - ut).abs() > eu + 1e-8 * size;
    if bad_h || bad_u {
        let msg = format!(
            "at {t} K enthalpy changes by {dh:e} J/kg-K although cp is {cp:e}, energy by {du:e} although the derivative is {ut:e}"
        );
        let scale = 1e-11 * (COEFS[0] * (t + 250.) + listed(t).abs());
        let same = c.hydrogen
            && (f.enth(t, p) - listed(t)).abs() <= scale
            && (f.inte(t, p) - (listed(t) - r * (t - 250.))).abs() <= scale;
        if same {
            obs.finding("hydrogen-enthalpy", msg);
        } else {
            return Err(msg);
        }
    }
    Ok(())
}

/// Literature values: monatomic gas, NIST Shomate equations for hydrogen
fn literature(c: &Case, obs: &mut Obs) -> Verdict {
    let f = fluid(c);
    obs.nontrivial();
    let cp = f.cp(c.t, c.p);
    let want = if c.hydrogen {
        let s = |a: f64, b: f64, c: f64, d: f64, e: f64, t: f64| a + b * t + c * t * t + d * t * t * t + e / (t * t);
        let x = c.t / 1000.;
        let molar = if c.t < 1000. {
            s(33.066178, -11.363417, 11.432816, -2.772874, -0.158558, x)
        } else {
            s(18.563083, 12.257357, -2.859786, 0.268238, 1.977990, x)
        };
        molar / 2.01588e-3
    } else {
        2.5 * 8.31446 / 4.002602e-3
    };
    let tol = if c.hydrogen { 1e-2 } else { 1e-3 };
    near!(obs, if c.hydrogen { "hydrogen" } else { "helium" }, cp, want, tol * want, "at {} K", c.t);
    let (ratio, want) = (cp / f.du_dT_P(c.t, c.p), if c.hydrogen { want / (want - 4124.5) } else { 5. / 3. });
    near!(obs, "ratio of specific heats", ratio, want, 1e-2 * want, "at {} K", c.t);
    Ok(())
}

fn main() {
    Check::new("C15", "Random temperatures and pressures for both gases; every case is non-trivial.")
        .leg("derivatives", 400_000, 20_000_000, || gen(20., 3000.), derivatives)
        .leg("extremes", 100_000, 5_000_000, || prop_oneof![gen(1e-2, 20.), gen(1e-2, 1e5)].boxed(), derivatives)
        .leg("literature", 100_000, 5_000_000, || gen(300., 1500.), literature)
        .run()
}
