//! C31: the cycle depends on the exchangers through their temperatures only
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use settlab::case::*;
use settlab::must;
use settlab::pairs::*;
use settlab::rt::*;

/// Compare two engines that both converge; `false` if the comparison isn't possible
fn same(case: &EngineCase, a: Eng, b: Eng, obs: &mut Obs) -> Verdict {
    let (a, b) = (Flat::of(case, a), Flat::of(case, b));
    if !a.regular || !b.regular {
        obs.label("not regular");
        return Ok(());
    }
    obs.nontrivial();
    case.labels(obs);
    a.agrees(&b, None, 3e-5, 3e-5, true, obs)
}

/// Replace conductances by the approaches that they converge to
fn equivalent(c: &(EngineCase, [bool; 3]), obs: &mut Obs) -> Verdict {
    let (case, which) = c;
    let Ok(a) = case.run() else {
        obs.label("not converged");
        return Ok(());
    };
    let t = a.state.temp;
    let mut other = case.clone();
    let mut replaced = 0;
    for (hx, dt, yes) in [
        (&mut other.chx, t.chx - t.sink, which[0]),
        (&mut other.regen, t.regen.cold - t.chx, which[1]),
        (&mut other.hhx, t.source - t.hhx, which[2]),
    ] {
        if yes && !hx.is_fixed() {
            hx.kind = HxKind::Fixed(dt);
            replaced += 1;
        }
    }
    if replaced == 0 {
        obs.label("nothing to replace");
        return Ok(());
    }
    let b = match other.run() {
        Ok(b) => b,
        Err(e) => {
            // With conductances left the iteration may contract differently
            if !other.all_fixed() || !case.regular(&a) {
                obs.label("only one converged");
                return Ok(());
            }
            return Err(format!(
                "an engine converges but fails with {} when its exchangers are replaced by fixed approaches of the same temperatures",
                error_name(&e)
            ));
        }
    };
    obs.label(format!("{replaced} replaced"));
    same(case, a, b, obs)
}

/// Conductances beyond all need are no different from approaches of zero
fn ideal(c: &(EngineCase, [bool; 3], f64), obs: &mut Obs) -> Verdict {
    let (engine, which, ntu) = c;
    let mut cond = engine.clone();
    let mut zero = engine.clone();
    let ua = ntu * engine.cap();
    for (c, z, yes) in [
        (&mut cond.chx, &mut zero.chx, which[0]),
        (&mut cond.regen, &mut zero.regen, which[1]),
        (&mut cond.hhx, &mut zero.hhx, which[2]),
    ] {
        if yes {
            c.kind = HxKind::Cond(ua);
            z.kind = HxKind::Fixed(0.);
        }
    }
    match (cond.run(), zero.run()) {
        (Ok(a), Ok(b)) => {
            let t = a.state.temp;
            for (name, dt, yes) in [
                ("cold exchanger", t.chx - t.sink, which[0]),
                ("regenerator", t.regen.cold - t.chx, which[1]),
                ("hot exchanger", t.source - t.hhx, which[2]),
            ] {
                if yes {
                    must!(
                        dt.abs() <= 1e-6 * (t.sink + t.source),
                        "the {name} has an approach of {dt:e} K with a conductance of {ua:e} W/K"
                    );
                }
            }
            same(engine, a, b, obs)
        }
        (Err(_), Err(_)) => {
            obs.label("not converged");
            Ok(())
        }
        _ => {
            obs.label("only one converged");
            Ok(())
        }
    }
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
struct Losses {
    hx: [(f64, f64, f64); 3],
    ws: (f64, f64, f64),
}

/// Flow resistances and parasitics don't change the cycle at all
fn losses(c: &(EngineCase, Losses), obs: &mut Obs) -> Verdict {
    let (case, l) = c;
    let mut other = case.clone();
    for (hx, (r, w, q)) in [&mut other.chx, &mut other.regen, &mut other.hhx].into_iter().zip(l.hx) {
        hx.r_hyd *= r;
        hx.w = w * case.cap() * 10.;
        hx.q = q * case.cap() * 10.;
    }
    other.w_c = l.ws.0 * case.cap() * 10.;
    other.w_e = l.ws.1 * case.cap() * 10.;
    other.q_e = l.ws.2 * case.cap() * 10.;
    match (case.run(), other.run()) {
        (Ok(a), Ok(b)) => {
            obs.nontrivial();
            case.labels(obs);
            // Everything but the pressures of the two spaces
            let text = |e: &Eng| {
                let (v, s) = (&e.values, &e.state);
                format!(
                    "{:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?}",
                    s.temp, s.pres, s.mass_flow, s.heat_flow, s.regen_imbalance,
                    v.time, v.P, v.T_c, v.T_e, v.m_dot_ck, v.m_dot_kr, v.m_dot_rl, v.m_dot_le, v.Q_dot_k, v.Q_dot_r, v.Q_dot_l
                )
            };
            must!(text(&a) == text(&b), "the cycle is another one with other losses");
            Ok(())
        }
        (Err(a), Err(b)) => {
            obs.label("not converged");
            must!(error_name(&a) == error_name(&b), "the run fails differently with other losses");
            Ok(())
        }
        _ => Err("whether the run converges depends on the losses".into()),
    }
}

fn main() {
    let tight = |mut e: EngineCase| {
        e.set = Settings::precise(e.set.resolution);
        e
    };
    Check::new(
        "C31",
        "Random engines and the same engines with some of their conductances replaced by the approaches they converge to (equivalent), with huge conductances and with approaches of zero (ideal), and with other flow resistances and parasitics (losses). Non-trivial: both converge, and in the first two legs the gas has physical properties throughout (helium above 130 K and hydrogen above 100 K only).",
    )
    .leg(
        "equivalent",
        300,
        12000,
        move || {
            let which = prop_oneof![
                2 => Just([true; 3]),
                3 => any::<[bool; 3]>().prop_map(|w| if w == [false; 3] { [true; 3] } else { w }),
            ];
            (
                prop_oneof![
                    4 => engine(Opts { fixed: false, ..Opts::default() }),
                    1 => engine(Opts::default()),
                ]
                .prop_map(tight),
                which,
            )
                .boxed()
        },
        equivalent,
    )
    .leg(
        "ideal",
        300,
        10000,
        move || {
            (
                engine(Opts { cond: false, wild: 0, ..Opts::default() }).prop_map(tight),
                any::<[bool; 3]>().prop_map(|w| if w == [false; 3] { [true; 3] } else { w }),
                lg(1e8, 1e14),
            )
                .boxed()
        },
        ideal,
    )
    .leg(
        "losses",
        800,
        30000,
        move || {
            let x = || prop_oneof![1 => Just(0.), 3 => 0f64..2., 1 => lg(1e-3, 1e3)];
            let hx = || (x(), x(), x());
            (
                engine(Opts { acc: Acc::Any, ..Opts::default() }),
                ([hx(), hx(), hx()], (x(), x(), x())).prop_map(|(hx, ws)| Losses { hx, ws }),
            )
                .boxed()
        },
        losses,
    )
    .run()
}
