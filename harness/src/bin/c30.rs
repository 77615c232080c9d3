//! C30: mirror and time shift symmetry
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use settlab::case::*;
use settlab::must;
use settlab::pairs::*;
use settlab::parts::Probe;
use settlab::rt::*;
use sett_rs::Components;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Shift {
    engine: EngineCase,
    /// Fraction of the period
    by: f64,
}

fn opposite(s: &HxSpec) -> HxSpec {
    HxSpec {
        kind: match s.kind {
            HxKind::Fixed(dt) => HxKind::Fixed(-dt),
            HxKind::Cond(ua) => HxKind::Cond(ua),
        },
        ..s.clone()
    }
}

fn mirror(case: &EngineCase, obs: &mut Obs) -> Verdict {
    let (tol, flows) = if case.all_fixed() { (1e-5, 5e-6) } else { (3e-5, 3e-5) };
    let mut other = case.clone();
    std::mem::swap(&mut other.t_sink, &mut other.t_source);
    other.chx = opposite(&case.hhx);
    other.hhx = opposite(&case.chx);
    other.regen = opposite(&case.regen);
    let b = other.run_with(Components { ws: Box::new(Mirrored { inner: case.ws() }), ..other.components() });
    let probe = Probe::new(case.ws());
    let cycles = probe.cycles.clone();
    let a = case.run_with(Components { ws: Box::new(probe), ..case.components() });
    let (a, b) = match (a, b) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(_), Err(_)) => {
            obs.label("not converged");
            return Ok(());
        }
        (Ok(a), Err(e)) => {
            // The guesses for conductances aren't mirrored, and helium may be singular on the way
            if !case.all_fixed() || !case.regular(&a) || 2 * cycles.get() > case.set.max_inner {
                obs.label("only one converged");
                return Ok(());
            }
            return Err(format!("an engine converges but its mirror image fails with {}", error_name(&e)));
        }
        (Err(_), Ok(_)) => {
            obs.label("only the image converged");
            return Ok(());
        }
    };
    let (mut a, b) = (Flat::of(case, a), Flat::of(&other, b));
    if !a.regular || !b.regular {
        obs.label("not regular");
        return Ok(());
    }
    obs.nontrivial();
    case.labels(obs);
    let drop = a.number("W ideal") - a.number("W indicated");
    let (q_in, q_out) = (a.number("Q input"), a.number("Q rejection"));
    for (x, y) in [
        ("P_c", "P_e"),
        ("T_c", "T_e"),
        ("m_dot_ck", "m_dot_le"),
        ("m_dot_kr", "m_dot_rl"),
        ("Q_dot_k", "Q_dot_l"),
        ("T sink", "T source"),
        ("T chx", "T hhx"),
        ("T regen cold", "T regen hot"),
        ("m chx", "m hhx"),
        ("Q chx", "Q hhx"),
    ] {
        a.swap(x, y);
    }
    for x in ["m_dot_ck", "m_dot_le", "m_dot_kr", "m_dot_rl", "Q_dot_k", "Q_dot_l", "Q chx", "Q hhx"] {
        a.negate(x);
    }
    // No parasitics here; the heat of pressure drops is always part of the rejected heat
    a.set("Q input", -(q_out - drop));
    a.set("Q rejection", -q_in + drop);
    let (w, q) = (a.number("W net"), a.number("Q input"));
    a.set("efficiency", w / q);
    must!(
        a.time.len() == b.time.len(),
        "the mirror image has {} points instead of {}",
        b.time.len(),
        a.time.len()
    );
    a.agrees(&b, None, tol, flows, true, obs)
}

fn shift(c: &Shift, obs: &mut Obs) -> Verdict {
    let case = &c.engine;
    let Ok(a) = case.run() else {
        obs.label("not converged");
        return Ok(());
    };
    let (tol, flows) = if case.all_fixed() { (1e-5, 5e-6) } else { (3e-5, 3e-5) };
    let n = a.values.time.len() - 1;
    let k = ((c.by * n as f64) as usize).clamp(1, n - 1);
    let by = a.values.time[k];
    let mut other = case.clone();
    other.p0 = a.values.P[k];
    let flat = Flat::of(case, a);
    if !flat.regular {
        obs.label("not regular");
        return Ok(());
    }
    let b = match other.run_with(Components { ws: Box::new(Shifted { inner: case.ws(), by }), ..other.components() }) {
        Ok(b) => b,
        Err(_) => {
            // How the iteration for the initial temperatures contracts depends on where the cycle starts
            obs.label("only one converged");
            return Ok(());
        }
    };
    let b = Flat::of(&other, b);
    if !b.regular {
        obs.label("not regular");
        return Ok(());
    }
    obs.nontrivial();
    case.labels(obs);
    must!(b.time.len() == n + 1, "there are {} points instead of {}", b.time.len(), n + 1);
    let pairs: Vec<(usize, usize)> = (0..=n).map(|j| ((j + k) % n, j)).collect();
    let mut a = flat;
    // The extremes of the same points, and the new start
    let start = a.series("P")[k];
    a.set("P zero", start);
    a.agrees(&b, Some(&pairs), tol, flows, true, obs)
}

fn main() {
    let opts = |cond: bool| Opts { cond, res: Res::Small, ..Opts::default() };
    let precise = |mut c: EngineCase| {
        c.set = Settings::precise(c.set.resolution.max(4));
        c
    };
    Check::new(
        "C30",
        "Random engines and their mirror images, or the same engine started at another reported time. Non-trivial: both converge (helium above 130 K and hydrogen above 100 K only).",
    )
    .leg(
        "mirror",
        420,
        20000,
        move || {
            engine(opts(true))
                .prop_map(move |c| EngineCase {
                    w_c: 0.,
                    w_e: 0.,
                    q_e: 0.,
                    chx: HxSpec { w: 0., q: 0., ..c.chx.clone() },
                    regen: HxSpec { w: 0., q: 0., ..c.regen.clone() },
                    hhx: HxSpec { w: 0., q: 0., ..c.hhx.clone() },
                    ..precise(c)
                })
                .boxed()
        },
        mirror,
    )
    .leg(
        "shift",
        420,
        20000,
        move || {
            (engine(opts(true)), 0f64..1.)
                .prop_map(move |(engine, by)| Shift { engine: precise(engine), by })
                .boxed()
        },
        shift,
    )
    .run()
}
