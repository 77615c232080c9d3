//! C17: exchanger models obey their heat transfer laws
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use settlab::case::*;
use settlab::rt::*;
use settlab::{must, near};
use sett_rs::types::{HeatExchanger, ParasiticPower};
use sett_rs::{chx, hhx, regen};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    vol: f64,
    r_hyd: f64,
    dt: f64,
    /// Number of transfer units
    ntu: f64,
    cp: f64,
    m: f64,
    /// Temperature change of the gas
    change: f64,
    temp: f64,
    pres: f64,
    dens: f64,
    a: f64,
    b: f64,
    w: [f64; 3],
}

fn gen() -> BoxedStrategy<Case> {
    let signed = |lo: f64, hi: f64| (lg(lo, hi), 0u32..8).prop_map(|(x, s)| if s == 0 { -x } else { x });
    let any_r = move || prop_oneof![1 => Just(0.), 4 => signed(1e-3, 1e12), 1 => signed(1e-30, 1e30)];
    let w = move || prop_oneof![1 => Just(0.), 3 => signed(1e-3, 1e6), 1 => signed(1e-30, 1e30)];
    (
        (prop_oneof![4 => lg(1e-10, 1e2), 1 => lg(1e-30, 1e30)], any_r(), prop_oneof![1 => Just(0.), 6 => -200f64..400., 1 => signed(1e-12, 1e12)], prop_oneof![6 => lg(1e-3, 200.), 1 => lg(1e-7, 1e6)]),
        (lg(500., 2e4), lg(1e-9, 1e3), prop_oneof![1 => Just(0.), 4 => lg(1e-3, 500.), 2 => lg(1e-3, 500.).prop_map(|x: f64| -x)]),
        (20f64..2000., lg(1e3, 1e9), lg(1e-3, 1e3), 20f64..2000., 20f64..2000.),
        [w(), w(), w()],
    )
        .prop_map(|((vol, r_hyd, dt, ntu), (cp, m, change), (temp, pres, dens, a, b), w)| Case {
            vol,
            r_hyd,
            dt,
            ntu,
            cp,
            m,
            change,
            temp,
            pres,
            dens,
            a,
            b,
            w,
        })
        .boxed()
}

fn laws(c: &Case, obs: &mut Obs) -> Verdict {
    let cap = c.cp * c.m;
    let ua = c.ntu * cap;
    let hxr = HeatExchanger {
        temp: c.temp,
        pres: c.pres,
        dens: c.dens,
        cp: c.cp,
        m_dot: c.m,
        Q_dot: c.change * cap,
    };
    let par = ParasiticPower { thermal: c.w[0], mechanical: c.w[1], electrical: c.w[2] };
    // e C (T_in - T) = Q with T_in = T + approach + Q/C
    let effective = |approach: f64, name: &str, obs: &mut Obs| -> Verdict {
        let e = -(-ua / cap).exp_m1();
        let q = e * cap * (approach + c.change);
        near!(obs, "heat flow by effectiveness", q, c.change * cap, (1e-12 + 1e-14 / c.ntu) * (c.change * cap).abs() + 1e-300, "of the {name}");
        if c.ntu < 20. {
            let want = c.change / c.ntu.exp_m1();
            // The law needs 1 / e - 1, which is only known to the accuracy of 1 / e
            near!(obs, "approach", approach, want, c.change.abs() * (1e-13 * (1. + 1. / c.ntu) + 2e-15 / (c.ntu * c.ntu)), "of the {name}");
        }
        must!(c.ntu > 20. || c.change == 0. || (approach > 0.) == (c.change > 0.), "the {name} transfers heat from cold to hot");
        Ok(())
    };
    macro_rules! given {
        ($hx:expr, $state:expr, $name:expr) => {{
            let hx = $hx;
            must!(hx.volume() == c.vol, "{} has volume {:e}, not {:e}", $name, hx.volume(), c.vol);
            let r = hx.hydraulic_resistance($state);
            must!(r == c.r_hyd, "{} has resistance {r:e}, not {:e}", $name, c.r_hyd);
            let p = hx.parasitics($state);
            must!(p == par, "{} has parasitics {p:?}, not {par:?}", $name);
            let a = hx.approach($state);
            must!(hx.approach($state) == a, "{} returns different approaches for the same state", $name);
            must!(hx.initial_approach().is_finite(), "{} suggests approach {}", $name, hx.initial_approach());
            a
        }};
    }
    {
        use chx::ColdHeatExchanger;
        let s = chx::State { hxr, sink_temp: c.a };
        let hx = chx::FixedApproach::new(c.vol, c.r_hyd, c.dt, par);
        must!(hx.initial_approach() == c.dt, "fixed approach {} starts from {}", c.dt, hx.initial_approach());
        let a = given!(&hx, &s, "chx with fixed approach");
        must!(a == c.dt, "chx with fixed approach {} returns {a}", c.dt);
        let a = given!(&chx::FixedConductance::new(c.vol, c.r_hyd, ua, par), &s, "chx with fixed conductance");
        effective(a, "chx", obs)?;
    }
    {
        use hhx::HotHeatExchanger;
        let s = hhx::State { hxr, source_temp: c.a };
        let hx = hhx::FixedApproach::new(c.vol, c.r_hyd, c.dt, par);
        must!(hx.initial_approach() == c.dt, "fixed approach {} starts from {}", c.dt, hx.initial_approach());
        let a = given!(&hx, &s, "hhx with fixed approach");
        must!(a == c.dt, "hhx with fixed approach {} returns {a}", c.dt);
        let a = given!(&hhx::FixedConductance::new(c.vol, c.r_hyd, ua, par), &s, "hhx with fixed conductance");
        effective(a, "hhx", obs)?;
    }
    {
        use regen::Regenerator;
        let s = regen::State { hxr, temp_chx: c.a, temp_hhx: c.b };
        let hx = regen::FixedApproach::new(c.vol, c.r_hyd, c.dt, par);
        must!(hx.initial_approach() == c.dt, "fixed approach {} starts from {}", c.dt, hx.initial_approach());
        let a = given!(&hx, &s, "regenerator with fixed approach");
        must!(a == c.dt, "regenerator with fixed approach {} returns {a}", c.dt);
        let a = given!(&regen::FixedConductance::new(c.vol, c.r_hyd, ua, par), &s, "regenerator with fixed conductance");
        let want = (c.b - c.a) / (1. + 0.5 * c.ntu);
        near!(obs, "regenerator approach", a, want, 1e-13 * (c.b - c.a).abs(), "");
    }
    if c.change != 0. && c.dt != 0. {
        obs.nontrivial();
    }
    obs.label(match c.ntu {
        x if x < 0.1 => "NTU below 0.1",
        x if x < 5. => "NTU of 0.1 to 5",
        _ => "NTU above 5",
    });
    Ok(())
}

fn main() {
    Check::new(
        "C17",
        "Random models and states; non-trivial when both the heat flow and the fixed approach are not zero.",
    )
    .leg("laws", 600_000, 30_000_000, gen, laws)
    .run()
}
