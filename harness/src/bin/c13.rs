//! C13: sinusoidal drive volumes follow crank kinematics
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use settlab::case::*;
use settlab::parts::*;
use settlab::rt::*;
use settlab::{must, near};
use sett_rs::ws::{self, sinusoidal_drive::Geometry, Parasitics, SinusoidalDrive, ThermalResistance, WorkingSpaces};
use sett_rs::types::ParasiticPower;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    f: f64,
    phase: f64,
    v: [f64; 4],
    /// Times in periods
    x: Vec<f64>,
    r: [Option<f64>; 2],
    w: [f64; 6],
    pres: [f64; 4],
    config: bool,
}

fn gen() -> BoxedStrategy<Case> {
    let phase = prop_oneof![
        4 => 0f64..360.,
        2 => -720f64..1440.,
        1 => prop_oneof![Just(0.), Just(90.), Just(180.), Just(270.), Just(360.), Just(-90.)],
    ];
    let v = || prop_oneof![1 => Just(0.), 6 => lg(1e-10, 1e2)];
    let x = prop_oneof![4 => 0f64..1., 2 => 0f64..100., 1 => -5f64..0., 1 => (0u32..9).prop_map(|i| f64::from(i) / 8.)];
    let r = || prop_oneof![1 => Just(None), 2 => lg(1e-6, 1e6).prop_map(Some)];
    let w = || prop_oneof![1 => Just(0.), 3 => lg(1e-3, 1e5)];
    (
        lg(1e-3, 1e4),
        phase,
        [v(), v(), v(), v()],
        prop::collection::vec(x, 1..24),
        [r(), r()],
        [w(), w(), w(), w(), w(), w()],
        [lg(1e3, 1e8), lg(1e3, 1e8), lg(1e3, 1e8), lg(1e3, 1e8)],
        any::<bool>(),
    )
        .prop_map(|(f, phase, v, x, r, w, pres, config)| Case { f, phase, v, x, r, w, pres, config })
        .boxed()
}

fn make(c: &Case) -> Box<dyn WorkingSpaces> {
    let inf = |r: Option<f64>| r.unwrap_or(f64::INFINITY);
    if c.config {
        // The configuration of this drive can only be deserialised
        let map: std::collections::BTreeMap<&str, f64> = [
            ("frequency", c.f),
            ("phase_angle", c.phase),
            ("V_swept_c", c.v[0]),
            ("V_clearance_c", c.v[1]),
            ("V_swept_e", c.v[2]),
            ("V_clearance_e", c.v[3]),
            ("R_c", inf(c.r[0])),
            ("R_e", inf(c.r[1])),
            ("W_parasitic_c", c.w[0]),
            ("W_parasitic_e", c.w[1]),
            ("Q_parasitic_e", c.w[2]),
        ]
        .into_iter()
        .collect();
        Box::new(SinusoidalDrive::from(match ws_config("sinusoidal", map) {
            ws::Config::Sinusoidal(config) => config,
            other => panic!("{other:?}"),
        }))
    } else {
        Box::new(SinusoidalDrive {
            frequency: c.f,
            phase_angle: c.phase,
            comp_geometry: Geometry { clearance_volume: c.v[1], swept_volume: c.v[0] },
            exp_geometry: Geometry { clearance_volume: c.v[3], swept_volume: c.v[2] },
            thermal_resistance: ThermalResistance { comp: inf(c.r[0]), exp: inf(c.r[1]) },
            parasitics: Parasitics {
                comp: ParasiticPower { mechanical: c.w[0], thermal: c.w[3], electrical: c.w[4] },
                exp: ParasiticPower { mechanical: c.w[1], thermal: c.w[2], electrical: c.w[5] },
            },
        })
    }
}

fn kinematics(c: &Case, obs: &mut Obs) -> Verdict {
    let drive = make(c);
    let spec = DriveSpec::Sin { f: c.f, phase: c.phase, vsc: c.v[0], vcc: c.v[1], vse: c.v[2], vce: c.v[3] };
    with_ws_state(c.pres, |state| {
        must!(drive.frequency(state) == c.f, "frequency {} isn't the {} of the drive", drive.frequency(state), c.f);
        let inf = |r: Option<f64>| r.unwrap_or(f64::INFINITY);
        let res = drive.thermal_resistance(state);
        must!(
            res.comp == inf(c.r[0]) && res.exp == inf(c.r[1]),
            "thermal resistances {res:?} aren't those of the drive"
        );
        let p = drive.parasitics(state);
        let want = if c.config {
            Parasitics {
                comp: ParasiticPower { mechanical: c.w[0], ..ParasiticPower::default() },
                exp: ParasiticPower { mechanical: c.w[1], thermal: c.w[2], electrical: 0. },
            }
        } else {
            Parasitics {
                comp: ParasiticPower { mechanical: c.w[0], thermal: c.w[3], electrical: c.w[4] },
                exp: ParasiticPower { mechanical: c.w[1], thermal: c.w[2], electrical: c.w[5] },
            }
        };
        must!(p.comp == want.comp && p.exp == want.exp, "parasitics {p:?} aren't {want:?}");
        let vol = drive.volumes(state);
        let w = 2. * std::f64::consts::PI * c.f;
        for x in &c.x {
            let t = x / c.f;
            let (vc, dvc, ve, dve) = spec.volumes(t);
            let (a, b) = vol(t);
            let angle = 1e-14 * (1. + x.abs() * 7. + c.phase.abs() / 50.);
            near!(obs, "compression volume", a.value, vc, c.v[1] * 1e-15 + c.v[0] * angle, "at {x} periods");
            near!(obs, "expansion volume", b.value, ve, c.v[3] * 1e-15 + c.v[2] * angle, "at {x} periods");
            near!(obs, "compression rate", a.deriv, dvc, c.v[0] * w * angle, "at {x} periods");
            near!(obs, "expansion rate", b.deriv, dve, c.v[2] * w * angle, "at {x} periods");
            for (v, clear, swept, name) in [(a.value, c.v[1], c.v[0], "compression"), (b.value, c.v[3], c.v[2], "expansion")] {
                let eps = 1e-14 * (clear + swept);
                must!(v >= clear - eps && v <= clear + swept + eps, "{name} volume {v:e} is out of its range");
            }
            // Derivative by differences, and the next period
            let h = 1e-4 / c.f;
            let (m, p) = (vol(t - h), vol(t + h));
            let slack = |s: f64, clear: f64| s * w * (1e-6 + 1e-9 * x.abs()) + clear * 1e-11 * c.f;
            near!(obs, "compression difference", a.deriv, (p.0.value - m.0.value) / (2. * h), slack(c.v[0], c.v[1]), "at {x} periods");
            near!(obs, "expansion difference", b.deriv, (p.1.value - m.1.value) / (2. * h), slack(c.v[2], c.v[3]), "at {x} periods");
            let n = vol((x + 1.) / c.f);
            near!(obs, "period", n.0.value, a.value, 1e-15 * c.v[1] + c.v[0] * 10. * angle, "at {x} periods");
            near!(obs, "period", n.1.value, b.value, 1e-15 * c.v[3] + c.v[2] * 10. * angle, "at {x} periods");
        }
        if c.v[0] > 0. && c.v[2] > 0. && c.phase != 0. {
            obs.nontrivial();
        }
        obs.label(if c.config { "from a configuration" } else { "built directly" });
        Ok(())
    })
}

fn main() {
    Check::new(
        "C13",
        "Random drives, built directly or from a configuration, at random times; non-trivial when both volumes vary and the phase angle isn't zero.",
    )
    .leg("kinematics", 1_500_000, 60_000_000, gen, kinematics)
    .run()
}
