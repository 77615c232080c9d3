//! C14: rhombic drive volumes follow the linkage geometry
use std::f64::consts::PI;

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use settlab::case::*;
use settlab::parts::*;
use settlab::rt::*;
use settlab::{must, near};
use sett_rs::types::ParasiticPower;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    f: f64,
    /// Crank radius, eccentricity, rod length, piston and displacer diameter
    g: [f64; 5],
    clear: [f64; 2],
    x: Vec<f64>,
    r: [Option<f64>; 2],
    w: [f64; 3],
    pres: [f64; 4],
}

fn gen() -> BoxedStrategy<Case> {
    let x = prop_oneof![4 => 0f64..1., 2 => 0f64..100., 1 => -5f64..0., 1 => (0u32..9).prop_map(|i| f64::from(i) / 8.)];
    let r = || prop_oneof![1 => Just(None), 2 => lg(1e-6, 1e6).prop_map(Some)];
    let w = || prop_oneof![1 => Just(0.), 3 => lg(1e-3, 1e5)];
    (
        (lg(1e-3, 1e4), lg(1e-4, 1e1)),
        (prop_oneof![4 => lg(1., 5.), 1 => Just(1.)], lg(1.01, 8.), lg(0.2, 10.), lg(0.2, 10.)),
        [prop_oneof![1 => Just(0.), 6 => lg(1e-3, 1e1)], prop_oneof![1 => Just(0.), 6 => lg(1e-3, 1e1)]],
        prop::collection::vec(x, 1..24),
        [r(), r()],
        [w(), w(), w()],
        [lg(1e3, 1e8), lg(1e3, 1e8), lg(1e3, 1e8), lg(1e3, 1e8)],
    )
        .prop_map(|((f, r_crank), (e, gap, dp, dd), clear, x, r, w, pres)| {
            let ecc = e * r_crank;
            let g = [r_crank, ecc, (ecc + r_crank) * gap, dp * r_crank, dd * r_crank];
            let unit = r_crank.powi(3);
            Case { f, g, clear: clear.map(|c| c * unit), x, r, w, pres }
        })
        .boxed()
}

/// Positions of the yokes above and below a crank pin, from the rod length
fn yokes(g: &[f64; 5], angle: f64) -> (f64, f64) {
    let [r, ecc, l, _, _] = *g;
    let (s, c) = angle.sin_cos();
    // The crank is at the origin, the yokes' rod ends are at a distance `ecc` on the other side
    let (px, py) = (r * c, r * s);
    let dx = px + ecc;
    let dy = (l * l - dx * dx).sqrt();
    (py + dy, py - dy)
}

fn linkage(c: &Case, obs: &mut Obs) -> Verdict {
    let inf = |r: Option<f64>| r.unwrap_or(f64::INFINITY);
    let drive = rhombic_drive(&[
        ("frequency", c.f),
        ("V_clearance_c", c.clear[0]),
        ("R_c", inf(c.r[0])),
        ("W_parasitic_c", c.w[0]),
        ("V_clearance_e", c.clear[1]),
        ("R_e", inf(c.r[1])),
        ("W_parasitic_e", c.w[1]),
        ("Q_parasitic_e", c.w[2]),
        ("r_crank", c.g[0]),
        ("eccentricity", c.g[1]),
        ("L_conn", c.g[2]),
        ("D_p", c.g[3]),
        ("D_d", c.g[4]),
    ]);
    with_ws_state(c.pres, |state| {
        must!(drive.frequency(state) == c.f, "frequency {} isn't the {} of the drive", drive.frequency(state), c.f);
        let res = drive.thermal_resistance(state);
        must!(res.comp == inf(c.r[0]) && res.exp == inf(c.r[1]), "thermal resistances {res:?} aren't those configured");
        let p = drive.parasitics(state);
        let comp = ParasiticPower { mechanical: c.w[0], ..ParasiticPower::default() };
        let exp = ParasiticPower { mechanical: c.w[1], thermal: c.w[2], electrical: 0. };
        must!(p.comp == comp && p.exp == exp, "parasitics {p:?} aren't those configured");
        let vol = drive.volumes(state);
        let w = 2. * PI * c.f;
        let [r, ecc, l, dp, dd] = c.g;
        let (ap, ad) = (0.25 * PI * dp * dp, 0.25 * PI * dd * dd);
        // Yokes are farthest apart when the pin is on their side, displacer at its lowest when rod and crank are in line
        let (up, down) = yokes(&c.g, PI);
        let widest = up - down;
        let lowest = ((l - r) * (l - r) - ecc * ecc).sqrt();
        for x in &c.x {
            let t = x / c.f;
            let (up, down) = yokes(&c.g, w * t);
            let (a, b) = vol(t);
            // The lower yoke moves the displacer
            let vc = c.clear[0] + ap * (widest - (up - down));
            let ve = c.clear[1] + ad * (-down - lowest);
            let angle = 2e-14 * (1. + 7. * x.abs());
            // Where the rods are almost in line, lengths are ill-conditioned
            let cond = l / (0.5 * (up - down)).min(lowest);
            near!(obs, "compression volume", a.value, vc, (ap * l * cond + c.clear[0]) * angle, "at {x} periods");
            near!(obs, "expansion volume", b.value, ve, (ad * l * cond + c.clear[1]) * angle, "at {x} periods");
            let eps_c = 1e-13 * (ap * l * cond + c.clear[0]);
            let eps_e = 1e-13 * (ad * l * cond + c.clear[1]);
            if ecc >= r {
                must!(a.value >= c.clear[0] - eps_c, "compression volume {:e} is below its clearance", a.value);
            }
            must!(b.value >= c.clear[1] - eps_e, "expansion volume {:e} is below its clearance", b.value);
            // Rates
            let s = DriveSpec::Rhombic { f: c.f, vcc: c.clear[0], vce: c.clear[1], r, l, e: ecc, dp, dd };
            let (_, dvc, _, dve) = s.volumes(t);
            near!(obs, "compression rate", a.deriv, dvc, ap * r * w * cond * cond * angle * 10., "at {x} periods");
            near!(obs, "expansion rate", b.deriv, dve, ad * r * w * cond * cond * angle * 10., "at {x} periods");
            let h = 1e-5 / c.f;
            let d = |k: f64| {
                let (m, p) = (vol(t - k * h), vol(t + k * h));
                ((p.0.value - m.0.value) / (2. * k * h), (p.1.value - m.1.value) / (2. * k * h))
            };
            let (d1, d2) = (d(1.), d(2.));
            // Fourth order
            let (fc, fe) = ((4. * d1.0 - d2.0) / 3., (4. * d1.1 - d2.1) / 3.);
            let noise = |a: f64, clear: f64| (a * l * cond + clear) * c.f * (1e-9 + 1e-10 * x.abs()) + a * r * w * 1e-9 * cond.powi(4);
            near!(obs, "compression difference", a.deriv, fc, noise(ap, c.clear[0]), "at {x} periods");
            near!(obs, "expansion difference", b.deriv, fe, noise(ad, c.clear[1]), "at {x} periods");
            let n = vol((x + 1.) / c.f);
            near!(obs, "period", n.0.value, a.value, 10. * angle * (ap * l * cond + c.clear[0]), "at {x} periods");
            near!(obs, "period", n.1.value, b.value, 10. * angle * (ad * l * cond + c.clear[1]), "at {x} periods");
        }
        // Both reach their clearance: pin on the side of the yokes; rod and crank in line
        if ecc >= r {
            let v = vol(0.5 / c.f).0.value;
            near!(obs, "least compression volume", v, c.clear[0], 1e-13 * (ap * l * l / widest.min(l) + c.clear[0]), "");
            obs.nontrivial();
        } else {
            obs.label("eccentricity below crank radius");
        }
        let in_line = lowest.atan2(ecc);
        let t = in_line / w;
        let v = vol(t).1.value;
        near!(obs, "least expansion volume", v, c.clear[1], 1e-12 * (ad * l * l / lowest + c.clear[1]), "");
        Ok(())
    })
}

fn main() {
    Check::new(
        "C14",
        "Random linkages at random times; non-trivial when the eccentricity isn't below the crank radius, as the compression volume's least value then is its clearance.",
    )
    .leg("linkage", 1_500_000, 60_000_000, gen, linkage)
    .run()
}
